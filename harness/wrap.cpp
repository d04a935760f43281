// Link-time wrappers (-Wl,--wrap=...) around the system calls and locks used by the code under test. They inject pauses,
// short transfers and EINTR; every injected outcome is one the operating system may produce by itself.
#include <errno.h>
#include <poll.h>
#include <pthread.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include "vh.h"

namespace vh
{
Inject& inject()
{
  static Inject* i = new Inject;
  return *i;
}
void inject_off()
{
  auto& i = inject();
  i.post_delay = 0;
  i.delay = i.short_io = i.eintr = i.lock_delay = 0;
}
void report_injection()
{
  auto& i = inject();
  if (i.n_calls)
    cover("wrapped_calls", i.n_calls);
  if (i.n_short)
    cover("injected_short_io", i.n_short);
  if (i.n_eintr)
    cover("injected_eintr", i.n_eintr);
  if (i.n_delay)
    cover("injected_delays", i.n_delay);
  if (i.n_lock)
    cover("injected_lock_delays", i.n_lock);
}
namespace
{
thread_local std::uint64_t tls_state = 0;
thread_local int tls_eintr_run = 0;
std::uint64_t rnd()
{
  static std::atomic<std::uint64_t> thread_no{ 1 };
  if (tls_state == 0)
    tls_state = seed() * 0x9E3779B97F4A7C15ull + 77 * thread_no.fetch_add(1);
  std::uint64_t z = (tls_state += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
void nap(unsigned us)
{
  if (us == 0)
    return;
  struct timespec ts = { static_cast<time_t>(us / 1000000), static_cast<long>(us % 1000000) * 1000 };
  syscall(SYS_nanosleep, &ts, nullptr);
}
void pause_maybe(bool after = false)
{
  auto& i = inject();
  unsigned p = (after ? i.post_delay : i.delay).load(std::memory_order_relaxed);
  if (p && rnd() % 100 < p)
  {
    i.n_delay.fetch_add(1, std::memory_order_relaxed);
    nap(static_cast<unsigned>(rnd() % (i.max_delay_us.load(std::memory_order_relaxed) + 1)));
  }
}
bool eintr_maybe()
{
  auto& i = inject();
  i.n_calls.fetch_add(1, std::memory_order_relaxed);
  unsigned p = i.eintr.load(std::memory_order_relaxed);
  if (p && rnd() % 100 < p && tls_eintr_run < 3)
  {
    tls_eintr_run++;
    i.n_eintr.fetch_add(1, std::memory_order_relaxed);
    errno = EINTR;
    return true;
  }
  tls_eintr_run = 0;
  return false;
}
std::size_t cut(std::size_t n)
{
  auto& i = inject();
  unsigned p = i.short_io.load(std::memory_order_relaxed);
  if (n > 1 && p && rnd() % 100 < p)
  {
    i.n_short.fetch_add(1, std::memory_order_relaxed);
    // mostly tiny pieces for small transfers, anything for large ones
    return 1 + rnd() % (n - 1);
  }
  return n;
}
bool is_socket(int fd)
{
  int t;
  socklen_t l = sizeof t;
  int e = errno;
  bool r = syscall(SYS_getsockopt, fd, SOL_SOCKET, SO_TYPE, &t, &l) == 0;
  errno = e;
  return r;
}
}  // namespace
}  // namespace vh

using namespace vh;
extern "C" {
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_recv(int, void*, size_t, int);
ssize_t __real_send(int, const void*, size_t, int);
ssize_t __real_sendmsg(int, const struct msghdr*, int);
ssize_t __real_recvmsg(int, struct msghdr*, int);
ssize_t __real_readv(int, const struct iovec*, int);
ssize_t __real_writev(int, const struct iovec*, int);
int __real_select(int, fd_set*, fd_set*, fd_set*, struct timeval*);
int __real_poll(struct pollfd*, nfds_t, int);
int __real_accept(int, struct sockaddr*, socklen_t*);
int __real_accept4(int, struct sockaddr*, socklen_t*, int);
int __real_pthread_mutex_lock(pthread_mutex_t*);
pid_t __real_fork();
int __real_kill(pid_t, int);
std::atomic<int> vh_fork_failures{ 0 };
std::atomic<int> vh_bad_kills{ 0 };
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);

ssize_t __wrap_read(int fd, void* b, size_t n)
{
  pause_maybe();
  if (eintr_maybe())
    return -1;
  return __real_read(fd, b, is_socket(fd) ? cut(n) : n);
}
ssize_t __wrap_write(int fd, const void* b, size_t n)
{
  pause_maybe();
  if (eintr_maybe())
    return -1;
  ssize_t r = __real_write(fd, b, is_socket(fd) ? cut(n) : n);
  int e = errno;
  pause_maybe(true);
  errno = e;
  return r;
}
ssize_t __wrap_recv(int fd, void* b, size_t n, int f)
{
  pause_maybe();
  if (eintr_maybe())
    return -1;
  return __real_recv(fd, b, (f & MSG_WAITALL) ? n : cut(n), f);
}
ssize_t __wrap_send(int fd, const void* b, size_t n, int f)
{
  pause_maybe();
  if (eintr_maybe())
    return -1;
  ssize_t r = __real_send(fd, b, cut(n), f);
  int e = errno;
  pause_maybe(true);
  errno = e;
  return r;
}
ssize_t __wrap_sendmsg(int fd, const struct msghdr* m, int f)
{
  pause_maybe();
  if (eintr_maybe())
    return -1;
  ssize_t r = __real_sendmsg(fd, m, f);
  int e = errno;
  pause_maybe(true);
  errno = e;
  return r;
}
ssize_t __wrap_recvmsg(int fd, struct msghdr* m, int f)
{
  pause_maybe();
  if (eintr_maybe())
    return -1;
  return __real_recvmsg(fd, m, f);
}
ssize_t __wrap_readv(int fd, const struct iovec* v, int n)
{
  pause_maybe();
  if (eintr_maybe())
    return -1;
  return __real_readv(fd, v, n);
}
ssize_t __wrap_writev(int fd, const struct iovec* v, int n)
{
  pause_maybe();
  if (eintr_maybe())
    return -1;
  ssize_t r = __real_writev(fd, v, n);
  int e = errno;
  pause_maybe(true);
  errno = e;
  return r;
}
int __wrap_select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t)
{
  pause_maybe();
  if (eintr_maybe())
    return -1;
  return __real_select(n, r, w, e, t);
}
int __wrap_poll(struct pollfd* p, nfds_t n, int t)
{
  pause_maybe();
  if (eintr_maybe())
    return -1;
  return __real_poll(p, n, t);
}
int __wrap_accept(int fd, struct sockaddr* a, socklen_t* l)
{
  pause_maybe();
  if (eintr_maybe())
    return -1;
  return __real_accept(fd, a, l);
}
int __wrap_accept4(int fd, struct sockaddr* a, socklen_t* l, int flags)
{
  pause_maybe();
  if (eintr_maybe())
    return -1;
  return __real_accept4(fd, a, l, flags);
}
static void lock_nap()
{
  auto& i = inject();
  unsigned p = i.lock_delay.load(std::memory_order_relaxed);
  if (p && rnd() % 100 < p)
  {
    i.n_lock.fetch_add(1, std::memory_order_relaxed);
    nap(static_cast<unsigned>(rnd() % (i.lock_delay_us.load(std::memory_order_relaxed) + 1)));
  }
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
  lock_nap();
  return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
  int r = __real_pthread_mutex_unlock(m);
  lock_nap();
  return r;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
  lock_nap();
  return __real_pthread_rwlock_rdlock(m);
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
  lock_nap();
  return __real_pthread_rwlock_wrlock(m);
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
  int r = __real_pthread_rwlock_unlock(m);
  lock_nap();
  return r;
}
pid_t __wrap_fork()
{
  if (vh_fork_failures.load() > 0)
  {
    errno = EAGAIN;
    return -1;
  }
  return __real_fork();
}
// Signals to more than one process are never wanted here; they are noted and not sent.
int __wrap_kill(pid_t p, int s)
{
  if (p <= 1)
  {
    vh_bad_kills++;
    errno = ESRCH;
    return -1;
  }
  return __real_kill(p, s);
}
}
