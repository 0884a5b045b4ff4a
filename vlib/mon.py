"""
Monitors that watch the execution while the code under test runs.

The file-system monitor is a Python audit hook: every attempt to open a file
for writing, or to create, remove, rename, link or touch anything, is an event.
An event is judged when it happens (so that a change that is undone before the
operation ends is seen too) against

  * the scratch area: any attempt to change something outside of it is blocked
    and reported, whatever the property (this also protects the sandbox), and
  * protected trees (inputs): any attempt to change something in them, under
    any of the names (hard links) that their files have, is reported.
"""
import os, sys, threading, errno

W = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
PATH1 = {"os.remove", "os.mkdir", "os.rmdir", "os.truncate", "os.utime",
         "os.chmod", "os.chown", "os.setxattr", "os.removexattr",
         "shutil.rmtree", "os.mkfifo", "os.mknod"}
PATH2 = {"os.rename"}           # both names are changed
DEST = {"os.link", "os.symlink"}   # only the second is changed


class Escape(Exception):
    pass


class _State(object):
    scratch = None
    installed = False
    escapes = []
    protected = []       # [(realpath, label)]
    inodes = {}          # (dev, ino) -> path, of the protected files
    hits = []
    events = []
    record = False
    watch = []           # trees where even reading is an event
    reads = []
    nevents = 0
    busy = threading.local()
    allow = []

S = _State()


def install(scratch):
    S.scratch = os.path.realpath(scratch)
    S.allow = [S.scratch, "/dev/null"]
    for extra in [os.environ.get("VERIF_SCRATCH2")]:
        if extra:
            S.allow.append(os.path.realpath(extra))
    if not S.installed:
        S.installed = True
        sys.addaudithook(_hook)


def allow_also(path):
    S.allow.append(os.path.realpath(path))


def reset():
    S.escapes = []
    S.protected = []
    S.inodes = {}
    S.hits = []
    S.events = []
    S.record = False
    S.watch = []
    S.reads = []
    S.nevents = 0


def escapes():
    return S.escapes


def protect(*roots):
    "declare trees that must not be changed"
    S.busy.on = True
    try:
        for root in roots:
            real = os.path.realpath(root)
            S.protected.append(real)
            if os.path.isdir(real):
                for d, dirs, files in os.walk(real):
                    for f in files:
                        st = os.lstat(os.path.join(d, f))
                        S.inodes[(st.st_dev, st.st_ino)] = os.path.join(d, f)
            elif os.path.lexists(real):
                st = os.lstat(real)
                S.inodes[(st.st_dev, st.st_ino)] = real
    finally:
        S.busy.on = False


def unprotect():
    S.protected = []
    S.inodes = {}


def watch(*roots):
    "declare trees of which even reading is to be reported (by reads())"
    S.watch = [os.path.realpath(r) for r in roots]
    S.reads = []


def reads():
    return list(S.reads)


def _judge_read(event, path):
    if isinstance(path, int):
        return
    try:
        path = os.fsdecode(path)
    except TypeError:
        return
    real = os.path.realpath(path)
    for root in S.watch:
        if _under(real, root):
            S.reads.append((event, real))
            return


def hits():
    return list(S.hits)


def start_recording():
    S.events = []
    S.record = True


def stop_recording():
    S.record = False
    return S.events


class quiet(object):
    "for the harness' own file handling"
    def __enter__(self):
        self.old = getattr(S.busy, "on", False)
        S.busy.on = True
    def __exit__(self, *a):
        S.busy.on = self.old


class nolinks(object):
    "a file system without hard links (or inputs and outputs on different ones)"
    used = 0

    def __enter__(self):
        self.old = os.link

        def link(src, dst, *a, **k):
            nolinks.used += 1
            raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), src, None, dst)
        os.link = link

    def __exit__(self, *a):
        os.link = self.old


def _under(path, root):
    return path == root or path.startswith(root + "/")


def _judge(event, path):
    if isinstance(path, int):
        return
    try:
        path = os.fsdecode(path)
    except TypeError:
        return
    parent, base = os.path.split(os.path.abspath(path))
    real = os.path.join(os.path.realpath(parent), base)
    S.nevents += 1
    if S.record:
        S.events.append((threading.get_ident(), event, real))
    if not any(_under(real, a) for a in S.allow):
        if real.startswith("/proc/self/") or real.startswith("/dev/"):
            return
        S.escapes.append((event, real))
        raise Escape("attempt to modify a file outside of the scratch area: %s %s"
                     % (event, real))
    if not S.protected:
        return
    for root in S.protected:
        if _under(real, root):
            S.hits.append((event, real))
            return
    if event in ("open", "os.truncate", "os.utime", "os.chmod", "os.chown"):
        try:
            st = os.stat(real)
        except OSError:
            return
        alias = S.inodes.get((st.st_dev, st.st_ino))
        if alias:
            S.hits.append((event + " (through a hard link)", alias))


def _hook(event, args):
    if S.watch and event in ("open", "os.listdir", "os.scandir") and \
       not getattr(S.busy, "on", False):
        S.busy.on = True
        try:
            _judge_read(event, args[0])
        finally:
            S.busy.on = False
    if event == "open":
        flags = args[2]
        if not isinstance(flags, int) or not (flags & W):
            return
        if getattr(S.busy, "on", False):
            return
        S.busy.on = True
        try:
            # opening with O_CREAT a file that exists is still for writing
            _judge("open", args[0])
        finally:
            S.busy.on = False
        return
    if event in PATH1:
        paths = [args[0]]
    elif event in PATH2:
        paths = [args[0], args[1]]
    elif event in DEST:
        paths = [args[1]]
    else:
        return
    if getattr(S.busy, "on", False):
        return
    dirfd = args[-1] if event in ("os.remove", "os.rmdir") else -1
    S.busy.on = True
    try:
        for p in paths:
            if isinstance(dirfd, int) and dirfd >= 0 and not isinstance(p, int) \
               and not os.path.isabs(p):
                p = os.path.join(os.readlink("/proc/self/fd/%d" % dirfd),
                                 os.fsdecode(p))
            _judge(event, p)
    finally:
        S.busy.on = False
