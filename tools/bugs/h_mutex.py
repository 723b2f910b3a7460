MU = 'src/util/mutex_lock.rs'
BUGS = [
 dict(id='mutex-try-waits', property='C29',
  edits=[(MU, '''        self.lock.try_lock()
''', '''        match self.lock.try_lock() {
            // most holders are done at once
            Err(std::sync::TryLockError::WouldBlock) => self.again(),
            other => other
        }
'''), (MU, '''    #[inline]
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {''', '''    fn again(&self) -> TryLockResult<MutexGuard<'_, T>> {
        Ok(self.lock.lock()?)
    }

    #[inline]
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {''')],
  needs='a second handle trying while a first holds the lock', breaks='the try waits for the holder instead of being refused',
  demo=r'''
use level_db_rust::util::mutex_lock::MutexLock;
fn main() {
    let m = MutexLock::new(0);
    let (a, b) = (m.get_lock(), m.get_lock());
    let held = a.lock().unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { let _ = tx.send(b.try_lock().is_err()); });
    assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(5)), Ok(true), "the try was not refused");
    drop(held);
}'''),
]
