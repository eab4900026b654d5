#pragma once
#include <mutex>
namespace absl {
class Mutex { public: void Lock() { m.lock(); } void Unlock() { m.unlock(); } void lock() { m.lock(); } void unlock() { m.unlock(); } void AssertHeld() const {} void ReaderLock() { m.lock(); } void ReaderUnlock() { m.unlock(); } std::mutex m; };
class [[nodiscard]] MutexLock { public: explicit MutexLock(Mutex* m) : m_(m) { m->Lock(); } explicit MutexLock(Mutex& m) : MutexLock(&m) {} ~MutexLock() { m_->Unlock(); } MutexLock(const MutexLock&) = delete; private: Mutex* m_; };
using ReaderMutexLock = MutexLock; using WriterMutexLock = MutexLock;
}
