#include "fakefd.h"
#include "pbt.h"
#include "simclock.h"
#include <algorithm>
#include <arpa/inet.h>
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <unistd.h>
namespace fakefd
{
    Kernel* K = nullptr;
    void Kernel::noise(int64_t now)
    {
        if (!NoisePeriodNs)
            return;
        while (NoiseNext <= now && NoiseNext <= NoiseUntil) {
            Rx.emplace_back(NoiseNext, uint8_t(NoiseNext / NoisePeriodNs));
            NoiseNext += NoisePeriodNs;
        }
    }
    size_t Kernel::available(int64_t now)
    {
        noise(now);
        size_t n = 0;
        while (n < Rx.size() && Rx[n].first <= now)
            ++n;
        return n;
    }
    int64_t Kernel::readableAt(const TFd& f, int64_t now)
    {
        noise(now);
        int64_t r = Rx.empty() ? INT64_MAX : Rx.front().first;
        if (NoisePeriodNs && NoiseNext <= NoiseUntil)
            r = std::min(r, NoiseNext);
        if (f.Tcp)
            r = std::min(r, RemoteCloseAt);
        return r;
    }
}
using namespace fakefd;
namespace
{
    Kernel::TFd* find(int fd)
    {
        if (!K)
            return nullptr;
        auto it = K->Fds.find(fd);
        return it == K->Fds.end() ? nullptr : &it->second;
    }
    // a descriptor that was ours once, or no descriptor at all
    bool stale(int fd)
    {
        return K && (fd < 0 || (fd >= 700 && fd < 1020)) && !find(fd);
    }
    void misuse(const std::string& s)
    {
        K->Misuse.push_back(s);
    }
    int newFd(bool tcp)
    {
        int fd = K->NextFd++;
        if (K->NextFd >= 1020)
            K->NextFd = 700;
        K->Fds[fd].Tcp = tcp;
        return fd;
    }
    int fail(int e)
    {
        errno = e;
        return -1;
    }
    // waits for one descriptor; returns 1 or 0
    int waitFd(Kernel::TFd& f, bool rd, bool wr, int64_t timeoutNs)
    {
        ++K->Selects;
        if (K->Selects > 300000) {
            PBT_FAIL("the port waits again and again without end");
        }
        auto now = sim::nowNs();
        int64_t at = INT64_MAX;
        if (rd)
            at = K->readableAt(f, now);
        if (wr)
            at = std::min(at, f.ConnectedAt);
        if (at <= now)
            return 1;
        if (timeoutNs >= 0 && (at == INT64_MAX || at - now > timeoutNs)) {
            sim::advanceNs(timeoutNs);
            return 0;
        }
        if (at == INT64_MAX) {
            PBT_FAIL("the port waits without a timeout for data that never comes");
        }
        sim::advanceNs(at - now);
        return 1;
    }
}
extern "C" {
int __real_open(const char*, int, ...);
int __real_close(int);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
int __real_ioctl(int, unsigned long, ...);
int __real_select(int, fd_set*, fd_set*, fd_set*, timeval*);
int __real_poll(pollfd*, nfds_t, int);
int __real_fcntl(int, int, ...);
int __real_getaddrinfo(const char*, const char*, const addrinfo*, addrinfo**);

int __wrap_open(const char* path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
    va_end(ap);
    if (!K || path != K->SerialPath)
        return __real_open(path, flags, mode);
    K->OpenTries.push_back(sim::nowNs());
    if (K->FailOpen)
        return fail(K->FailOpen);
    int fd = newFd(false);
    auto& f = K->Fds[fd];
    f.Connected = true;
    f.NonBlock = flags & O_NONBLOCK;
    f.AtOpen = K->Line;
    // what came while nobody listened is lost
    K->available(sim::nowNs());
    return fd;
}
int __wrap_close(int fd)
{
    if (auto f = find(fd)) {
        K->Closes.push_back(sim::nowNs());
        if (!f->Tcp)
            K->ClosedWithInitial.push_back(!memcmp(&K->Line, &f->AtOpen, sizeof(termios)));
        K->Fds.erase(fd);
        return 0;
    }
    if (stale(fd)) {
        misuse("close of descriptor that is not open");
        return fail(EBADF);
    }
    return __real_close(fd);
}
ssize_t __wrap_read(int fd, void* buf, size_t n)
{
    auto f = find(fd);
    if (!f) {
        if (stale(fd)) {
            misuse("read of descriptor that is not open");
            return fail(EBADF);
        }
        return __real_read(fd, buf, n);
    }
    if (K->FailRead)
        return fail(K->FailRead);
    auto now = sim::nowNs();
    auto av = K->available(now);
    if (!av) {
        if (f->Tcp && K->RemoteCloseAt <= now)
            return 0;
        if (f->NonBlock)
            return fail(EAGAIN);
        if (!f->Tcp)
            return 0; // VMIN = VTIME = 0
        auto at = K->readableAt(*f, now);
        if (at == INT64_MAX) {
            PBT_FAIL("a blocking read() without data");
        }
        sim::advanceNs(at - now);
        av = K->available(sim::nowNs());
    }
    auto k = std::min(av, n);
    for (size_t i = 0; i < k; ++i) {
        static_cast<uint8_t*>(buf)[i] = K->Rx.front().second;
        K->Rx.pop_front();
    }
    return ssize_t(k);
}
ssize_t __wrap_write(int fd, const void* buf, size_t n)
{
    auto f = find(fd);
    if (!f) {
        // not misuse: a port may be left closed by a failed reopen; the error is reported to the caller
        if (stale(fd))
            return fail(EBADF);
        return __real_write(fd, buf, n);
    }
    if (K->FailWrite)
        return fail(K->FailWrite);
    if (f->Tcp && K->RemoteCloseAt <= sim::nowNs()) {
        // the peer answers the first write with a reset
        if (!K->LazyReset)
            return fail(EPIPE);
        K->LazyReset = false;
        return ssize_t(n);
    }
    auto k = std::min(n, K->PartialWrite);
    Written w;
    w.At = sim::nowNs();
    w.Data.assign(static_cast<const uint8_t*>(buf), static_cast<const uint8_t*>(buf) + k);
    w.Tio = K->Line;
    K->Out.push_back(w);
    return ssize_t(k);
}
ssize_t __wrap_recv(int fd, void* buf, size_t n, int)
{
    return __wrap_read(fd, buf, n);
}
ssize_t __wrap_send(int fd, const void* buf, size_t n, int)
{
    return __wrap_write(fd, buf, n);
}
int __wrap_ioctl(int fd, unsigned long req, ...)
{
    va_list ap;
    va_start(ap, req);
    void* arg = va_arg(ap, void*);
    va_end(ap);
    if (!find(fd)) {
        if (stale(fd))
            return fail(EBADF);
        return __real_ioctl(fd, req, arg);
    }
    if (req == FIONREAD) {
        if (K->FailIoctl)
            return fail(K->FailIoctl);
        *static_cast<int*>(arg) = int(K->available(sim::nowNs()));
        return 0;
    }
    return fail(ENOTTY);
}
int __wrap_select(int nfds, fd_set* r, fd_set* w, fd_set* e, timeval* tv)
{
    if (!K)
        return __real_select(nfds, r, w, e, tv);
    if (nfds <= 0) {
        misuse("select() with the descriptor of a closed port");
        if (tv)
            sim::advanceNs(tv->tv_sec * 1000000000ll + tv->tv_usec * 1000ll);
        return 0;
    }
    int fd = nfds - 1;
    auto f = find(fd);
    if (!f) {
        if (stale(fd)) {
            misuse("select() of descriptor that is not open");
            return fail(EBADF);
        }
        return __real_select(nfds, r, w, e, tv);
    }
    bool rd = r && FD_ISSET(fd, r), wr = w && FD_ISSET(fd, w);
    int64_t t = tv ? tv->tv_sec * 1000000000ll + tv->tv_usec * 1000ll : -1;
    if (tv && (tv->tv_usec < 0 || tv->tv_usec >= 1000000 || tv->tv_sec < 0))
        return fail(EINVAL);
    int res = waitFd(*f, rd, wr, t);
    if (r)
        FD_ZERO(r);
    if (w)
        FD_ZERO(w);
    if (res) {
        if (rd)
            FD_SET(fd, r);
        if (wr)
            FD_SET(fd, w);
    }
    return res;
}
int __wrap_poll(pollfd* p, nfds_t n, int ms)
{
    if (!K || n != 1 || !find(p->fd)) {
        if (K && n == 1 && stale(p->fd)) {
            misuse("poll() of descriptor that is not open");
            return fail(EBADF);
        }
        return __real_poll(p, n, ms);
    }
    int res = waitFd(*find(p->fd), p->events & POLLIN, p->events & POLLOUT, ms < 0 ? -1 : ms * 1000000ll);
    p->revents = res ? p->events : 0;
    return res;
}
int __wrap_tcgetattr(int fd, termios* t)
{
    if (!find(fd))
        return fail(EBADF);
    if (K->FailGetattr)
        return fail(K->FailGetattr);
    *t = K->Line;
    return 0;
}
int __wrap_tcsetattr(int fd, int, const termios* t)
{
    if (!find(fd))
        return fail(EBADF);
    if (K->FailSetattr > 0) {
        --K->FailSetattr;
        return fail(EIO);
    }
    K->Line = *t;
    return 0;
}
int __wrap_tcflush(int fd, int q)
{
    if (!find(fd))
        return fail(EBADF);
    if (K->FailFlush)
        return fail(K->FailFlush);
    if (q == TCIFLUSH || q == TCIOFLUSH) {
        for (auto n = K->available(sim::nowNs()); n; --n)
            K->Rx.pop_front();
    }
    return 0;
}
int __wrap_socket(int, int, int)
{
    K->OpenTries.push_back(sim::nowNs());
    if (K->FailOpen)
        return fail(K->FailOpen);
    return newFd(true);
}
int __wrap_connect(int fd, const sockaddr*, socklen_t)
{
    auto f = find(fd);
    if (!f)
        return fail(EBADF);
    K->Rx.clear();
    K->RemoteCloseAt = INT64_MAX;
    switch (K->Connect) {
        case ConnectResult::Immediately:
            f->Connected = true;
            f->ConnectedAt = sim::nowNs();
            return 0;
        case ConnectResult::RefusedNow:
            return fail(ECONNREFUSED);
        case ConnectResult::Later:
            f->Connected = true;
            f->ConnectedAt = sim::nowNs() + K->ConnectDelayNs;
            break;
        case ConnectResult::RefusedLater:
            f->SoError = ECONNREFUSED;
            f->ConnectedAt = sim::nowNs() + K->ConnectDelayNs;
            break;
        case ConnectResult::Never:
            f->ConnectedAt = INT64_MAX;
            break;
    }
    if (!f->NonBlock) {
        // a blocking connect
        if (f->ConnectedAt == INT64_MAX)
            f->ConnectedAt = sim::nowNs() + 130000000000ll, f->SoError = ETIMEDOUT;
        sim::advanceNs(f->ConnectedAt - sim::nowNs());
        return f->SoError ? fail(f->SoError) : 0;
    }
    return fail(EINPROGRESS);
}
int __wrap_getsockopt(int fd, int level, int opt, void* v, socklen_t* l)
{
    auto f = find(fd);
    if (!f)
        return fail(EBADF);
    if (level == SOL_SOCKET && opt == SO_ERROR) {
        *static_cast<int*>(v) = f->SoError;
        *l = sizeof(int);
        return 0;
    }
    return fail(ENOPROTOOPT);
}
int __wrap_setsockopt(int fd, int level, int opt, const void* v, socklen_t)
{
    auto f = find(fd);
    if (!f)
        return fail(EBADF);
    if (level == SOL_TCP && opt == TCP_NODELAY) {
        if (K->FailNodelay)
            return fail(K->FailNodelay);
        f->NoDelay = *static_cast<const int*>(v);
    }
    return 0;
}
int __wrap_fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    auto f = find(fd);
    if (!f) {
        if (stale(fd))
            return fail(EBADF);
        return __real_fcntl(fd, cmd, arg);
    }
    if (cmd == F_GETFL)
        return O_RDWR | (f->NonBlock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) {
        f->NonBlock = arg & O_NONBLOCK;
        return 0;
    }
    return fail(EINVAL);
}
int __wrap_getaddrinfo(const char* host, const char* port, const addrinfo* h, addrinfo** r)
{
    if (!K)
        return __real_getaddrinfo(host, port, h, r);
    if (K->FailResolve)
        return EAI_NONAME;
    addrinfo hints = {};
    if (h)
        hints = *h;
    hints.ai_flags |= AI_NUMERICHOST | AI_NUMERICSERV;
    return __real_getaddrinfo("127.0.0.1", port, &hints, r);
}
}
