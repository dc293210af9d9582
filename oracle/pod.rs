//! The real limabean-pod server as a child process: one line in, one line out.
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{Receiver, RecvTimeoutError, channel};
use std::time::Duration;

pub struct Pod {
    child: Child,
    stdin: Option<ChildStdin>,
    rx: Receiver<Vec<u8>>,
}

#[derive(Debug)]
pub enum Dead {
    Exited(String),
    Hung,
}

pub fn pod_path() -> PathBuf {
    PathBuf::from(std::env::var("POD").expect("POD: path to limabean-pod"))
}

impl Pod {
    pub fn start(beanfile: &Path) -> Pod {
        let mut child = Command::new(pod_path())
            .arg("serve")
            .arg(beanfile)
            .env("RUST_BACKTRACE", "0")
            .env_remove("LIMABEAN_POD_LOG")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("start limabean-pod");
        let out = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            let mut r = BufReader::new(out);
            loop {
                let mut line = Vec::new();
                match r.read_until(b'\n', &mut line) {
                    Ok(0) | Err(_) => break,
                    Ok(_) => {
                        if tx.send(line).is_err() {
                            break;
                        }
                    }
                }
            }
        });
        let stdin = child.stdin.take();
        Pod { child, stdin, rx }
    }

    pub fn send(&mut self, line: &str) {
        if let Some(i) = self.stdin.as_mut() {
            let mut l = line.as_bytes().to_vec();
            l.push(b'\n');
            let _ = i.write_all(&l);
            let _ = i.flush();
        }
    }

    pub fn send_raw(&mut self, bytes: &[u8]) {
        if let Some(i) = self.stdin.as_mut() {
            let _ = i.write_all(bytes);
            let _ = i.flush();
        }
    }

    pub fn recv(&mut self, timeout: Duration) -> Result<String, Dead> {
        match self.rx.recv_timeout(timeout) {
            Ok(l) => {
                let mut s = String::from_utf8_lossy(&l).into_owned();
                if s.ends_with('\n') {
                    s.pop();
                }
                Ok(s)
            }
            Err(RecvTimeoutError::Timeout) => Err(Dead::Hung),
            Err(RecvTimeoutError::Disconnected) => {
                let st = self.child.wait().map(|s| s.to_string()).unwrap_or_default();
                Err(Dead::Exited(st))
            }
        }
    }

    pub fn ask(&mut self, line: &str) -> Result<String, Dead> {
        self.send(line);
        self.recv(Duration::from_secs(20))
    }

    /// Close its input; the lines still to come and how it ended.
    pub fn finish(mut self) -> (Vec<String>, Option<i32>) {
        self.stdin = None;
        let mut rest = vec![];
        loop {
            match self.recv(Duration::from_secs(20)) {
                Ok(l) => rest.push(l),
                Err(Dead::Hung) => {
                    let _ = self.child.kill();
                    let _ = self.child.wait();
                    return (rest, None);
                }
                Err(Dead::Exited(_)) => break,
            }
        }
        let code = self.child.wait().ok().and_then(|s| s.code());
        (rest, code)
    }
}

impl Drop for Pod {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
