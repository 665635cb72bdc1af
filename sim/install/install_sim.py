#!/usr/bin/env python3
"""C13, C14: the real install script, run by bash, in a simulated world.

Every external command the script runs is sim/install/ext.c, which logs the call, meets its planned fault and otherwise
does what the command does inside a scratch directory of its own. A seed gives the world (release, archive, machine, home
directory, terminal) and the faults; one world and one list of faults is one repeatable execution.

  install_sim.py VERIF REPO ID quick|thorough      check
  install_sim.py VERIF REPO replay FILE            replay one violation
"""
import collections, ctypes, hashlib, io, json, multiprocessing as mp, os, pty, random, shutil, signal, stat, subprocess, sys, tarfile, tempfile, threading, time

V, REPO = sys.argv[1], sys.argv[2]
BUILD = os.environ.get("SIM_BUILD", V + "/.build")
EVID = os.environ.get("SIM_EVIDENCE", V + "/evidence")
REPL = os.environ.get("SIM_REPLAYS", EVID + "/replay")
SCRIPT = f"{REPO}/scripts/install-afmt.sh"
UID = 65534
REAL = """basename dirname cat rm mkdir rmdir chmod chown ln ls head tail cut grep egrep fgrep sed awk tr sort uniq wc tee dd tar gzip gunzip
 zcat touch date id env printf echo test true false readlink realpath stat find xargs sha256sum cmp diff file which unlink truncate bash sh
 expr seq rev tac fold paste comm join od jq python3 perl tput clear getopt hostname groups stty tty timeout nice nohup pwd sha1sum md5sum
 base64 xz bzip2 split printenv yes column lsb_release mkfifo unzip openssl cksum sum nproc arch whoami getconf pathchk tsort factor ps pgrep""".split()
SIMMED = "curl uname mktemp mv cp install sleep sync wget".split()
PLATFORMS = ["linux-x86_64", "linux-aarch64", "macos-x86_64", "macos-aarch64", "windows-x86_64"]
LINUX = ("linux-x86_64", "linux-aarch64")

# ---------------------------------------------------------------- worlds
DEFAULT = dict(os="Linux", arch="x86_64", pub=PLATFORMS, order=0, pretty=True, extras=[], archive="flat", mode=0o755, size=3000, old=None, dir="exists",
               home="home", path=True, shell="/bin/bash", tty=None, profile="lines", stdout="pipe", via="stdin", cut=None, xdev=False,
               umask=0o22, fsize=None, missing=[], faults=[], version="v0.1.7", others=True, then=[])


def world(rng):
    w = dict(DEFAULT)
    some = lambda p: rng.random() < p
    w["os"] = rng.choice(["Linux"] * 8 + ["Darwin"] * 4 + ["FreeBSD", "MINGW64_NT-10.0"])
    w["arch"] = rng.choice(["x86_64"] * 6 + ["amd64", "arm64", "arm64", "aarch64", "aarch64", "i686", "riscv64"])
    w["pub"] = PLATFORMS if some(.6) else rng.sample(PLATFORMS, rng.randint(1, 5))
    w["order"] = rng.randrange(1 << 30)
    w["pretty"] = some(.9)
    w["extras"] = [e for e in (".sha256", ".zip", ".asc") if some(.25)]
    w["archive"] = rng.choice(["flat"] * 8 + ["dot", "dot", "more", "more", "more", "sub", "none", "dir", "link"])
    w["mode"] = rng.choice([0o755, 0o755, 0o755, 0o775, 0o700, 0o644, 0o600])
    w["size"] = rng.choice([200, 3000, 3000, 40000, 200000])
    w["old"] = rng.choice([None, None, "file", "file", "file", "file", "file", "ro", "link", "abslink", "hard", "dir", "dangling"])
    w["dir"] = rng.choice(["exists"] * 8 + ["missing", "missing", "link", "readonly", "file", "nolocal"])
    if w["dir"] in ("missing", "file", "nolocal"):
        w["old"] = None
    w["home"] = rng.choice(["home", "home", "home", "ho me", "h*me [a]", "home-é"])
    w["path"] = some(.4)
    w["shell"] = rng.choice(["/bin/bash"] * 4 + ["/usr/bin/zsh"] * 3 + ["/usr/bin/fish", "/usr/bin/fish", "/bin/ksh", "", None])
    w["tty"] = rng.choice([None, None, "y\n", "y\n", "y\n", "Y\n", "n\n", "n\n", "\n", "yes\n", "no, yes\n", "\x04"])
    w["profile"] = rng.choice(["lines", "paths", "paths", "open", "open", "empty", "absent", "absent", "readonly", "link"])
    w["stdout"] = rng.choice(["pipe"] * 9 + ["full", "broken", "closed"])
    w["via"] = rng.choice(["stdin", "stdin", "file"])
    w["cut"] = rng.random() if w["via"] == "stdin" and some(.12) else None
    w["xdev"] = some(.5)
    w["umask"] = rng.choice([0o22, 0o22, 0o22, 0o77, 0o02])
    w["fsize"] = rng.random() if some(.06) else None
    w["version"] = rng.choice(["v0.1.7", "v1.0.0", "nightly-2026"])
    w["others"] = some(.7)
    return w


def follow_up(rng, w, base):
    """another installation on the same machine, perhaps of another release, perhaps met by faults"""
    some = lambda p: rng.random() < p
    o = dict(faults=[], missing=[], fsize=None, cut=None, stdout="pipe", via=rng.choice(["stdin", "file"]))
    o["version"] = w["version"] if some(.4) else rng.choice(["v0.1.8", "v1.0.0", "nightly-2027"])
    o["size"] = rng.choice([200, 3000, 40000])
    o["archive"] = rng.choice(["flat"] * 4 + ["more", "sub", "none", "dot", "dir"])
    o["pub"] = PLATFORMS if some(.85) else rng.sample(PLATFORMS, 3)
    o["tty"] = rng.choice([None, "y\n", "y\n", "n\n"])
    if base and some(.35):
        l, n = rng.choice([x for x in base if x[0].split(" ")[0] in ("mv", "cp", "install", "chmod", "tar", "curl", "rm", "mkdir")] or base)
        # by the name of the command: its arguments may differ this time
        o["faults"].append([l.split(" ")[0], rng.choice([1, 1, 2])] + list(fault(rng, l)))
    return o


PERSIST = [("partial", None), ("killpart", None), ("intpart", None), ("termpart", None), ("huppart", None)]


def fault(rng, line):
    """a fault for this command line"""
    cmd = line.split(" ")[0]
    frac = str(rng.choice([0, 1, 100, 500, 900, 990, 999, rng.randint(0, 1000)]))
    opts = [("before", "1"), ("before", "1"), ("before", rng.choice(["2", "126", "141"])), ("killbefore", "0"), ("killafter", "0"), ("after", "1"),
            ("intbefore", "0"), ("intafter", "0"), ("termbefore", "0"), ("termafter", "0"), ("hupafter", "0"), ("absent", "0"),
            ("otherbefore", "0"), ("otherafter", "0")]
    if cmd in ("curl", "tar", "mv", "cp", "install", "cat"):
        opts += [(k, frac) for k in ("partial", "partial", "partial", "killpart", "killpart", "intpart", "termpart")]
    if cmd == "curl":
        opts += [("http", rng.choice(["403", "404", "500", "503"]))] * 3 + [("cut", frac)] * 3 + [("empty", "0"), ("garbage", str(rng.randint(0, 9000))), ("garbage", "64"), ("before", "6"), ("before", "28")]
    if cmd == "uname":
        opts += [("garbage", "0")]
    return rng.choice(opts)


def payload(platform, version, size):
    head = f"#!/bin/sh\necho afmt {version} for {platform}\nexit 0\n"
    r = random.Random(f"{platform} {version} {size}")
    body = "".join("# %064x\n" % r.getrandbits(256) for _ in range(max(0, size - len(head)) // 67 + 1))
    return (head + body).encode()


def archive(w, platform):
    b = io.BytesIO()
    t = tarfile.open(fileobj=b, mode="w:gz")

    def add(name, data, mode, kind=None, link=None):
        i = tarfile.TarInfo(name)
        i.mode, i.size, i.mtime = mode, len(data), 1700000000
        if kind:
            i.type, i.size = kind, 0
        if link:
            i.linkname = link
        t.addfile(i, io.BytesIO(data))
    data, mode, a = payload(platform, w["version"], w["size"]), w["mode"], w["archive"]
    if a == "more":
        add("LICENSE", b"do what you like\n", 0o644)
    if a == "sub":
        add("afmt-dist", b"", 0o755, tarfile.DIRTYPE)
        add("afmt-dist/afmt", data, mode)
    elif a == "dir":
        add("afmt", b"", 0o755, tarfile.DIRTYPE)
        add("afmt/afmt", data, mode)
    elif a == "none":
        add("README.md", b"# nothing here\n", 0o644)
    elif a == "link":
        add("afmt", b"", 0o777, tarfile.SYMTYPE, "afmt.real")
    else:
        add(("./" if a == "dot" else "") + "afmt", data, mode)
    if a == "more":
        add("README.md", b"# afmt\n" * 400, 0o644)
    t.close()
    return b.getvalue()


def gzip_fixed(b):  # the time stamp in the gzip header would make every run differ
    return b[:4] + b"\0\0\0\0" + b[8:]


def snapshot(top, skip=()):
    out = {}

    def walk(p, rel):
        st = os.lstat(p)
        if stat.S_ISLNK(st.st_mode):
            out[rel] = ("link", os.readlink(p))
        elif stat.S_ISDIR(st.st_mode):
            out[rel] = ("dir", st.st_mode & 0o777)
            for n in sorted(os.listdir(p)):
                if (rel + "/" + n) not in skip:
                    walk(p + "/" + n, rel + "/" + n)
        else:
            out[rel] = ("file", st.st_mode & 0o777, open(p, "rb").read() if stat.S_ISREG(st.st_mode) else b"")
    walk(top, "")
    return out


class Sim:
    def __init__(self, top):
        self.top, self.n, self.bins = top, 0, {}
        self.script = open(SCRIPT, "rb").read()
        os.makedirs(top)
        os.chmod(top, 0o755)
        shutil.copy(BUILD + "/install_ext", top + "/ext")
        os.chmod(top + "/ext", 0o755)
        ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)  # children of children come to us when their parent is killed
        self.drop = os.geteuid() == 0
        if self.drop:
            try:
                subprocess.run(["/bin/true"], user=UID, group=UID, extra_groups=[], check=True)
            except Exception:
                self.drop = False

    def bin(self, missing):
        k = tuple(sorted(missing))
        if k not in self.bins:
            d = f"{self.top}/bin{len(self.bins)}"
            os.mkdir(d)
            for c in SIMMED + [c for c in REAL if os.path.exists("/usr/bin/" + c) or os.path.exists("/bin/" + c)]:
                if c not in missing:
                    os.symlink(self.top + "/ext", d + "/" + c)
            self.bins[k] = d
        return self.bins[k]

    def close(self):
        for d in (self.top,):
            subprocess.run(["chmod", "-R", "u+rwX", d], stderr=subprocess.DEVNULL)
            shutil.rmtree(d, ignore_errors=True)

    def run(self, w):
        self.n += 1
        root = f"{self.top}/w"
        if os.path.exists(root):
            subprocess.run(["chmod", "-R", "u+rwX", root], stderr=subprocess.DEVNULL) if not self.drop else None
            shutil.rmtree(root)
        os.mkdir(root)
        try:
            return self.run_in(root, w)
        finally:
            if not self.drop:
                subprocess.run(["chmod", "-R", "u+rwX", root], stderr=subprocess.DEVNULL)
            shutil.rmtree(root, ignore_errors=True)

    def run_in(self, root, w):
        """one installation after another on the same machine; what the last one found and did is judged like the first"""
        r = self.stage(root, w, None)
        for k, over in enumerate(w["then"]):
            if r["bad"]:
                break
            x = dict(w, **over)
            n = self.stage(root, x, r)
            n["digest"] = hashlib.sha256((r["digest"] + n["digest"]).encode()).hexdigest()
            n["fired"] = r["fired"] + n["fired"]
            n["before"] = r.get("before", []) + r["log"] + [f"-- exit {r['code']}; the next installation\t-"]
            n["outside"] = r["outside"] + n["outside"]
            n["bad"] = {p: [f"{m} (installation {k + 2})" for m in ms] for p, ms in n["bad"].items()}
            r = n
        return r

    def furnish(self, w, put, home, tmp, root, bdir, local, target, oldb, mine):
        if w["dir"] == "link":
            os.makedirs(home + "/opt/bin")
            os.makedirs(local)
            os.symlink("../opt/bin", bdir)
        elif w["dir"] == "missing":
            os.makedirs(local)
        elif w["dir"] == "file":
            put(bdir, b"not a directory\n")
        elif w["dir"] == "nolocal":
            pass
        else:
            os.makedirs(bdir)
        if w["old"] == "file":
            put(target, oldb, 0o755)
        elif w["old"] == "ro":
            put(target, oldb, 0o555)
        elif w["old"] == "link":
            put(home + "/apps/afmt-0.0.1/afmt", oldb, 0o755)
            os.symlink("../../apps/afmt-0.0.1/afmt" if w["dir"] != "link" else "../../apps/afmt-0.0.1/afmt", target)
        elif w["old"] == "abslink":
            put(home + "/apps/afmt", oldb, 0o755)
            os.symlink(home + "/apps/afmt", target)
        elif w["old"] == "hard":
            put(home + "/apps/afmt", oldb, 0o755)
            os.link(home + "/apps/afmt", target)
        elif w["old"] == "dir":
            put(target + "/notes", b"mine\n")
        elif w["old"] == "dangling":
            os.symlink("nowhere", target)
        if w["others"] and w["dir"] not in ("missing", "file", "nolocal"):
            put(bdir + "/other-tool", b"#!/bin/sh\necho other\n", 0o755)
            put(bdir + "/afmt.bak", b"#!/bin/sh\necho backup\n", 0o755)
            put(bdir + "/.afmt", b"mine\n", 0o600)
        if w["others"]:
            put(home + "/afmt", b"a file of mine\n")
            put(home + "/afmt.tar.gz", b"another\n")
            if w["order"] % 2:
                put(tmp + "/afmt", b"someone's\n")
            else:
                for d in ("afmt", "afmt-install", "install", "tmp"):
                    put(f"{tmp}/{d}/afmt", b"someone's\n")
                    put(f"{tmp}/{d}/notes", b"someone's\n")
            put(f"{tmp}/afmt-{w['version']}-{mine}.tar.gz", b"someone's\n")
        prof = {"bash": ".bashrc", "zsh": ".zshrc", "fish": ".config/fish/config.fish"}
        ptext = {"lines": b"# my settings\nalias ll='ls -l'\n", "paths": b"# afmt and others\nexport PATH=\"$HOME/bin:$PATH\"\nexport PATH=\"$HOME/.local/bin/more:$PATH\" # .local/bin\nalias afmt='afmt -w'\nset -U fish_user_paths ~/.local/bin2\n", "open": b"# my settings\nexport EDITOR=vi", "empty": b"", "readonly": b"# my settings\n", "link": b"# my settings\n"}.get(w["profile"])
        for n, p in prof.items():
            if ptext is None:
                continue
            if w["profile"] == "link":
                put(f"{home}/dotfiles/{n}rc", ptext)
                os.makedirs(os.path.dirname(f"{home}/{p}"), exist_ok=True)
                os.symlink(f"{home}/dotfiles/{n}rc", f"{home}/{p}")
            else:
                put(f"{home}/{p}", ptext, 0o444 if w["profile"] == "readonly" else 0o644)
        put(home + "/.profile", b"# login\n")
        if w["dir"] == "readonly":
            os.chmod(bdir, 0o555)

    def stage(self, root, w, prev):
        home, tmp = root + "/" + w["home"], root + "/tmp"
        for d in (home, tmp, root + "/n"):
            if prev is None:
                os.mkdir(d)
        if prev is not None:
            # only the user's machine stays
            for f in os.listdir(root):
                if root + "/" + f not in (home, tmp):
                    shutil.rmtree(root + "/" + f) if os.path.isdir(root + "/" + f) else os.unlink(root + "/" + f)
            os.mkdir(root + "/n")

        def put(p, b, mode=0o644):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(b)
            os.chmod(p, mode)
        # ---- release
        o = {"Linux": "linux", "Darwin": "macos"}.get(w["os"])
        a = {"x86_64": "x86_64", "amd64": "x86_64", "arm64": "aarch64", "aarch64": "aarch64"}.get(w["arch"])
        mine = f"{o}-{a}" if o and a else None
        assets, urls, listed = [], [], []
        for p in w["pub"]:
            ext = ".zip" if p.startswith("windows") else ".tar.gz"
            f = f"afmt-{w['version']}-{p}{ext}"
            listed.append(f)
            put(f"{root}/a/{f}", gzip_fixed(archive(w, p)))
            for e in w["extras"]:
                g = f[:-7] + ".zip" if e == ".zip" and ext != ".zip" else f + e
                if g not in listed:
                    listed.append(g)
                    put(f"{root}/a/{g}", hashlib.sha256(f.encode()).hexdigest().encode() + b"  " + f.encode() + b"\n")
        random.Random(w["order"]).shuffle(listed)
        base = f"https://github.com/xixiaofinland/afmt/releases/download/{w['version']}/"
        api = dict(url="https://api.github.com/repos/xixiaofinland/afmt/releases/1", tag_name=w["version"], name=w["version"], draft=False,
                   assets=[dict(name=f, content_type="application/gzip", size=os.path.getsize(f"{root}/a/{f}"), browser_download_url=base + f) for f in listed],
                   tarball_url=f"https://api.github.com/repos/xixiaofinland/afmt/tarball/{w['version']}", body="### Bug Fixes\r\n\r\n* everything")
        put(root + "/api.json", (json.dumps(api, indent=2) if w["pretty"] else json.dumps(api, separators=(",", ":"))).encode() + b"\n")
        put(root + "/assets", "".join(f"{base}{f}\ta/{f}\n" for f in listed).encode())
        put(root + "/uname.s", w["os"].encode() + b"\n")
        put(root + "/uname.m", w["arch"].encode() + b"\n")
        new = payload(mine, w["version"], w["size"]) if mine else b""
        put(root + "/payload", new)
        put(root + "/plan", "".join(f"{l}\t{n}\t{act}\t{arg}\n" for l, n, act, arg in w["faults"]).encode())
        # ---- home
        local, bdir = home + "/.local", home + "/.local/bin"
        target = bdir + "/afmt"
        oldb = payload("old", "v0.0.1", 2500)
        if prev is None:
            self.furnish(w, put, home, tmp, root, bdir, local, target, oldb, mine)
        put(root + "/xdev", (tmp + "\n").encode() if w["xdev"] else b"")
        put(root + "/script.sh", self.script if w["cut"] is None else self.script[:int(w["cut"] * len(self.script))])
        if self.drop:
            for d, ds, fs in os.walk(root):
                os.lchown(d, UID, UID)
                for f in ds + fs:
                    if os.lstat(d + "/" + f).st_uid != UID:
                        os.lchown(d + "/" + f, UID, UID)
        before = snapshot(home)
        tbefore = snapshot(tmp)
        jw, ours, tours = w, set(), set()
        if prev is not None:
            # what earlier installations left is theirs, not the user's
            ours, tours = prev["ours"] | (set(before) - set(prev["b"])), prev["tours"] | (set(tbefore) - set(prev["tb"]))
            e = now(before, home, bdir_of(w) + "/afmt")
            if e is None:
                jw = dict(w, old="dangling" if bdir_of(w) + "/afmt" in before else None)
            elif e[0] == "file":
                jw, oldb = dict(w, old="file"), e[2]
            else:
                jw = dict(w, old="dir")
        # ---- run
        env = dict(HOME=home, TMPDIR=tmp, PATH=self.bin(w["missing"]) + (":" + bdir if w["path"] else ""), SIM_ROOT=root, LC_ALL="C", TERM="dumb", USER="nobody")
        if w["shell"] is not None:
            env["SHELL"] = w["shell"]
        m = sfd = None
        if w["tty"] is not None:
            m, sfd = pty.openpty()
            os.write(m, w["tty"].encode())
            if self.drop:
                os.fchown(sfd, UID, UID)
        limit = None if w["fsize"] is None else int(w["fsize"] * 1.2 * (w["size"] + 500)) // 1024 * 1024 + 4096
        mask = w["umask"]

        def pre():
            import fcntl, resource, termios
            os.setsid()
            if sfd is not None:
                fcntl.ioctl(sfd, termios.TIOCSCTTY, 0)
            os.umask(mask)
            for s in (signal.SIGPIPE, signal.SIGXFSZ, signal.SIGINT, signal.SIGHUP, signal.SIGTERM):
                signal.signal(s, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            if w["stdout"] == "closed":
                os.close(1)
            if m is not None:
                os.close(m)
        stdin = open(root + "/script.sh", "rb") if w["via"] == "stdin" else subprocess.DEVNULL
        outf = open("/dev/full", "wb") if w["stdout"] == "full" else subprocess.DEVNULL if w["stdout"] == "closed" else tempfile.TemporaryFile()
        if w["stdout"] == "broken":
            r, wr = os.pipe()
            os.close(r)
            outf = os.fdopen(wr, "wb")
        errf = tempfile.TemporaryFile()
        argv = ["/bin/bash"] + ([root + "/script.sh"] if w["via"] == "file" else [])
        kw = dict(user=UID, group=UID, extra_groups=[]) if self.drop else {}
        started = time.time()
        p = subprocess.Popen(argv, cwd=home, env=env, stdin=stdin, stdout=outf, stderr=errf, preexec_fn=pre, pass_fds=[sfd] if sfd is not None else [], **kw)
        dog = threading.Timer(60, lambda: os.killpg(p.pid, signal.SIGKILL))
        dog.start()
        code = p.wait()
        dog.cancel()
        if code == -9 and time.time() - started > 59:
            code = "hang"
        # commands of a killed pipeline may still be ending
        dog = threading.Timer(10, lambda: os.killpg(p.pid, signal.SIGKILL))
        dog.start()
        try:
            while True:
                os.waitpid(-p.pid, 0)
        except ChildProcessError:
            pass
        dog.cancel()
        for fd in (m, sfd):
            if fd is not None:
                os.close(fd)
        for f in (stdin, outf):
            if hasattr(f, "close") and f is not subprocess.DEVNULL:
                if f is outf and w["stdout"] == "pipe":
                    f.seek(0)
                    text = f.read()
                f.close()
        out = (text if w["stdout"] == "pipe" else b"").replace(root.encode(), b"@").decode("utf8", "replace")
        errf.seek(0)
        err = errf.read().replace(root.encode(), b"@").decode("utf8", "replace")
        errf.close()
        log = []
        if os.path.exists(root + "/log"):
            log = [l for l in open(root + "/log", encoding="utf8", errors="replace").read().split("\n") if l]
        after = snapshot(home)
        tafter = snapshot(tmp)
        killed = any(l.endswith("\tKILLED") and not l.startswith("other: ") for l in log) or (isinstance(code, int) and code < 0)
        killed_other = any(l.startswith("other: ") and l.endswith("\tKILLED") for l in log)
        bad = judge(jw, before, after, tbefore, tafter, code, killed, new, mine, oldb, home, root, out, ours, tours, killed_other)
        fired = [l for l in log if not l.endswith(("\t-", "\tKILLED", "\tOUTSIDE")) and not l.startswith("other: ")]
        h = hashlib.sha256()
        h.update(json.dumps([str(code), sorted(log), sorted((k, [str(x) if not isinstance(x, bytes) else hashlib.sha256(x.replace(root.encode(), b"@")).hexdigest() for x in v]) for k, v in after.items())]).replace(root, "@").encode())
        return dict(code=code, log=log, bad=bad, fired=fired, digest=h.hexdigest(), out=out, err=err, outside=[l for l in log if l.endswith("\tOUTSIDE")],
                    b=before if prev is None else prev["b"], tb=tbefore if prev is None else prev["tb"], ours=ours, tours=tours)


def bdir_of(w):
    return "/opt/bin" if w["dir"] == "link" else "/.local/bin"


def now(s, home, k):
    """what is at this path of a snapshot, links followed"""
    for _ in range(8):
        e = s.get(k)
        if not e or e[0] != "link":
            return e
        t = e[1]
        k = t[len(home):] if t.startswith(home) else os.path.normpath(os.path.dirname(k) + "/" + t)
    return None


def judge(w, b, a, tb, ta, code, killed, new, mine, oldb, home, root, out, ours=(), tours=(), killed_other=False):
    """-> {property: [what is wrong]}"""
    bad = collections.defaultdict(list)
    T = "/.local/bin/afmt"
    D = "/opt/bin" if w["dir"] == "link" else "/.local/bin"
    T = D + "/afmt"

    def follow(s, k):
        for _ in range(8):
            e = s.get(k)
            if not e or e[0] != "link":
                return k, e
            t = e[1]
            k = t[len(home):] if t.startswith(home) else os.path.normpath(os.path.dirname(k) + "/" + t)
        return k, None
    oldk, olde = follow(b, T)
    newk, newe = follow(a, T)
    is_new = bool(mine) and newe is not None and newe[0] == "file" and newe[2] == new and bool(newe[1] & 0o100)
    if code == "hang":
        bad["C13"].append("the script does not end")
    whole = w["cut"] is None
    if code == 0 and whole and not is_new:
        bad["C13"].append("the script reports success, but the complete new afmt is not in place and executable")
    if not is_new:
        if w["old"] is None or w["old"] == "dangling":
            if newe is not None:
                bad["C13"].append("something that is not the complete, executable new afmt is left where afmt belongs")
            elif w["old"] == "dangling" and a.get(T) != b.get(T):
                bad["C14"].append("a link of the user's is gone")
        elif w["old"] == "dir":
            if {k: v for k, v in a.items() if k.startswith(T)} != {k: v for k, v in b.items() if k.startswith(T)}:
                bad["C14"].append("the user's directory named afmt is changed")
        elif newe is None:
            bad["C13"].append("the afmt installed before is gone and the new one is not in place")
        elif newe[0] != "file" or newe[2] != oldb or not newe[1] & 0o100:
            bad["C13"].append("the afmt installed before is damaged and the new one is not in place")
    # everything else of the user's is as it was
    name = os.path.basename(w["shell"] or "")
    prof = {"bash": "/.bashrc", "zsh": "/.zshrc", "fish": "/.config/fish/config.fish"}.get(name)
    pk = follow(b, prof)[0] if prof else None
    yes = w["tty"] in ("y\n", "Y\n", "yes\n") and not w["path"]  # only "y" has to count as a yes
    inst = lambda k: os.path.dirname(k) == D and k != T
    for k, v in b.items():
        if k == T and (is_new or v[0] != "dir"):
            continue
        if k.startswith(T + "/"):
            continue
        if k in (pk, prof) and yes or k in ours:
            continue
        if a.get(k) != v:
            bad["C14"].append(f"{'the directory' if v[0] == 'dir' else 'the file'} ~{k} of the user's is {'gone' if k not in a else 'changed'}")
    allowed = {"/.local", "/.local/bin"}
    for k in a:
        if k in b or k == T or k in allowed:
            continue
        if yes and (k == prof or k == pk or prof and prof.startswith(k + "/")):
            continue
        if inst(k) and code != 0:
            continue  # a partial file of its own, left behind by a failure, is no harm
        if code != 0 and yes and prof and os.path.dirname(k) in (os.path.dirname(prof), os.path.dirname(pk)):
            continue  # the profile, being prepared
        if k.startswith("/.local/") and code != 0 and os.path.dirname(k) == D:
            continue
        bad["C14"].append(f"~{k} is left behind in the home directory")
    for k, v in tb.items():
        if k and k not in tours and ta.get(k) != v:
            bad["C14"].append(f"the file {k} in the temporary directory, which is somebody else's, is {'gone' if k not in ta else 'changed'}")
    if code == 0 and whole and not killed_other:
        for k in ta:
            if k not in tb:
                bad["C14"].append("an installation that succeeded leaves something behind in the temporary directory")
                break
    # the profile: whole lines are added at the end, which make the shell find afmt
    if yes and pk:
        was, now = b.get(pk), a.get(pk)
        if was is not None and now is None:
            bad["C14"].append(f"the profile ~{prof} is gone")
        elif now is not None and now[0] == "file":
            old = was[2] if was else b""
            if was and was[0] == "file" and now[1] != was[1]:
                bad["C14"].append(f"the mode of ~{prof} is changed")
            if not now[2].startswith(old):
                bad["C14"].append(f"what was in ~{prof} is not all there any more")
            elif now[2] != old:
                if old and not old.endswith(b"\n") and now[2][len(old):len(old) + 1] != b"\n":
                    bad["C14"].append(f"the last line of ~{prof} is joined with what is added")
                elif not now[2].endswith(b"\n"):
                    bad["C14"].append(f"what is added to ~{prof} is no whole line")
                else:
                    add = now[2][len(old):].decode("utf8", "replace")
                    if len(add.strip("\n").split("\n")) != 1 and len([l for l in add.split("\n") if l.strip() and not l.strip().startswith("#")]) != 1:
                        bad["C14"].append(f"more than one setting is added to ~{prof}")
                    elif not is_new:
                        bad["C14"].append(f"~{prof} is changed, but no afmt is installed")
                    elif name in ("bash", "zsh") and not finds(now[2], home, home + "/.local/bin"):
                        bad["C14"].append(f"after what is added to ~{prof}, the shell does not find afmt")
            elif code == 0 and w["profile"] != "readonly" and whole and "Done!" in out:
                bad["C14"].append(f"nothing was added to ~{prof}, but the script says it was")
    return dict(bad)


def finds(text, home, want):
    """does a shell reading this profile have `want` on its PATH?"""
    try:
        r = subprocess.run(["/bin/bash", "--norc", "-c", 'eval "$(cat)"; printf %s "$PATH"'], input=text, env=dict(HOME=home, PATH="/usr/bin:/bin", USER="nobody"),
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=20)
    except subprocess.TimeoutExpired:
        return False
    return want in r.stdout.decode("utf8", "replace").split(":")


# ---------------------------------------------------------------- search
def lines_of(res):
    """the command lines of a run, each with its occurrences"""
    n = collections.Counter(l.rsplit("\t", 1)[0] for l in res["log"] if not l.endswith(("\tKILLED", "\tOUTSIDE")) and not l.startswith("other: "))
    return sorted((l, i + 1) for l, k in n.items() for i in range(k))


def worker(args):
    prop, wid, seed, until, maxruns, top = args
    sim = Sim(f"{top}/{wid}")
    st = dict(runs=0, faults=collections.Counter(), digests=set(), nontrivial=set(), codes=collections.Counter(), bad=[], samples=[], lines=set(), outside=0, again=0, same=0)
    try:
        k = wid
        while time.time() < until and st["runs"] < maxruns and len(st["bad"]) < 3:
            rng = random.Random(f"{seed}/{prop}/{k}")
            k += 8
            w = world(rng)
            if prop == "C14" and rng.random() < .5:
                w["path"], w["stdout"], w["archive"], w["missing"], w["fsize"], w["cut"] = False, "pipe", "flat", [], None, None
                w["os"], w["arch"], w["extras"], w["pub"] = "Linux", "x86_64", [], PLATFORMS
                if w["tty"] is None or rng.random() < .5:
                    w["tty"] = "y\n"
            res = sim.run(w)
            todo = [(w, res)]
            note(st, w, res, prop)
            base = lines_of(res)
            for j in range(rng.choice([3, 6, 6, 9])):
                w2 = json.loads(json.dumps(w))
                if rng.random() < .08:
                    w2["missing"] = [rng.choice(sorted({l.split(" ")[0] for l, _ in base} | {"curl", "tar"}))]
                else:
                    r = base
                    for _ in range(rng.choice([1, 1, 1, 1, 2, 2, 3])):
                        if not r:
                            break
                        # the later commands are the ones that change something
                        l, n = r[rng.randrange(len(r))] if rng.random() < .5 else rng.choice([x for x in r if x[0].split(" ")[0] in ("mv", "cp", "install", "chmod", "tar", "curl", "rm", "ln", "mkdir")] or r)
                        if any(f[0] == l and f[1] == n for f in w2["faults"]):
                            continue
                        act, arg = fault(rng, l)
                        w2["faults"].append([l, n, act, arg])
                        if len(w2["faults"]) > 1 or rng.random() < .3:
                            # what the script does after this fault may meet the next
                            mid = sim.run(w2)
                            note(st, w2, mid, prop)
                            r = [x for x in lines_of(mid) if not any(f[0] == x[0] and f[1] == x[1] for f in w2["faults"])]
                if rng.random() < .35:
                    # and again, on what this one leaves behind
                    for _ in range(rng.choice([1, 1, 1, 2])):
                        w2["then"].append(follow_up(rng, w2, base))
                res = sim.run(w2)
                note(st, w2, res, prop)
                if st["runs"] % 40 == 0:
                    st["again"] += 1
                    st["same"] += sim.run(w2)["digest"] == res["digest"]
                if len(st["bad"]) >= 3:
                    break
        return st
    finally:
        sim.close()


def note(st, w, res, prop):
    st["runs"] += 1
    st["digests"].add(res["digest"])
    for l in res["fired"]:
        line, act = l.rsplit("\t", 1)
        st["faults"][f"{act}:{line.split(' ')[0]}"] += 1
    for key in ("fsize", "cut"):
        if w[key] is not None:
            st["faults"][{"fsize": "limit:file_size", "cut": "cut:script"}[key]] += 1
    if w["stdout"] != "pipe":
        st["faults"]["stdout:" + w["stdout"]] += 1
    if w["missing"]:
        st["faults"]["missing:" + w["missing"][0]] += 1
    if w["tty"] == "\x04":
        st["faults"]["terminal:end of file"] += 1
    if w["dir"] == "readonly":
        st["faults"]["directory:read-only"] += 1
    if res["fired"] or w["fsize"] is not None or w["cut"] is not None or w["missing"] or w["stdout"] != "pipe" or w["dir"] in ("readonly", "file"):
        st["nontrivial"].add(res["digest"])
    st["codes"][str(res["code"])] += 1
    st["outside"] += len(res["outside"])
    for l in res["log"]:
        st["lines"].add(l.rsplit("\t", 1)[0])
    if w["then"]:
        st["faults"]["history:another installation"] += 1
    if len(st["samples"]) < 3 and res["fired"]:
        st["samples"].append(dict(world=w, exit=res["code"], commands=res["log"]))
    if res["bad"].get(prop):
        st["bad"].append((w, res["bad"][prop]))


def kind(what):
    import re
    return re.sub(r" \(installation \d+\)", "", re.sub(r"~\S+", "~", what))


def minimise(sim, w, what, prop):
    """drop faults and unusual circumstances as long as the same thing goes wrong"""
    want = kind(what)

    def still(x):
        r = sim.run(x)
        return any(kind(m) == want for m in r["bad"].get(prop, []))
    changed = True
    while changed:
        changed = False
        for i in range(len(w["faults"])):
            x = dict(w, faults=w["faults"][:i] + w["faults"][i + 1:])
            if still(x):
                w, changed = x, True
                break
        for i in range(len(w["then"])):
            x = dict(w, then=w["then"][:i] + w["then"][i + 1:])
            if not still(x) and w["then"][i]["faults"]:
                x = dict(w, then=w["then"][:i] + [dict(w["then"][i], faults=[])] + w["then"][i + 1:])
            if still(x):
                w, changed = x, True
                break
        for k, v in DEFAULT.items():
            if k not in ("faults", "then") and w[k] != v:
                x = dict(w, **{k: v})
                if k == "home":
                    x["faults"] = [[f[0].replace("@/" + w["home"], "@/" + v)] + list(f[1:]) for f in w["faults"]]
                if still(x):
                    w, changed = x, True
    return w


def known():
    out = {}
    d = V + "/known"
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if f.endswith(".json"):
            j = json.load(open(d + "/" + f))
            if j.get("simulator") == "install":
                out[f] = j
    return out


def build():
    os.makedirs(BUILD, exist_ok=True)
    src = V + "/sim/install/ext.c"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    try:
        if os.path.exists(BUILD + "/install_ext") and open(BUILD + "/install_ext.hash").read() == h:
            return
    except OSError:
        pass
    new = f"{BUILD}/install_ext.{os.getpid()}"
    r = subprocess.run(["gcc", "-O2", "-w", "-static", "-o", new, src])
    if r.returncode:
        print("BUILD ERROR: install_ext", file=sys.stderr)
        sys.exit(2)
    os.rename(new, BUILD + "/install_ext")
    open(BUILD + "/install_ext.hash", "w").write(h)


def top_dir():
    # where an unprivileged user can get and start programs; memory if there is some
    for base in ("/dev/shm", "/tmp"):
        try:
            if os.statvfs(base).f_bavail * os.statvfs(base).f_frsize < 1 << 29:
                continue
            d = tempfile.mkdtemp(prefix="afmt-install-sim.", dir=base)
            os.chmod(d, 0o755)
            shutil.copy("/bin/true", d + "/true")
            subprocess.run([d + "/true"], check=True)
            break
        except Exception:
            pass
    os.chmod(d, 0o755)
    return os.path.realpath(d)


def replay(path):
    j = json.load(open(path))
    build()
    top = top_dir()
    sim = Sim(top + "/r")
    try:
        res = [sim.run(dict(DEFAULT, **j["world"])) for _ in range(2)]
    finally:
        sim.close()
        shutil.rmtree(top, ignore_errors=True)
    r = res[0]
    print("commands:")
    for l in r.get("before", []) + r["log"]:
        print("  ", l.replace("\t", "   -> "))
    print("exit:", r["code"])
    print("the same again:", "yes" if r["digest"] == res[1]["digest"] else "NO")
    if j.get("digest") and j["digest"] != r["digest"]:
        print("the execution differs from the recorded one (the script has changed?)")
    bad = r["bad"].get(j["property"], [])
    for m in bad:
        print("  " + m)
    if bad:
        print(f"VIOLATION property={j['property']} replay={path}")
        return 1
    print("no violation")
    return 0


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    build()
    if not os.path.exists(SCRIPT):
        print(f"there is no {SCRIPT}", file=sys.stderr)
        return 2
    seconds = float(os.environ.get("SIM_SECONDS", 70 if tier == "quick" else 600))
    maxruns = 1 << 30 if tier == "thorough" else 1100
    top = top_dir()
    code = 0
    viol = []
    try:
        # at least one fault-free run of the plain case must install: otherwise nothing here means anything
        sim = Sim(top + "/base")
        plain = sim.run(dict(DEFAULT))
        if plain["code"] != 0 or plain["bad"]:
            pass  # judged below like every other run
        with mp.Pool(8) as pool:
            sts = pool.map(worker, [(prop, i, seed, t0 + seconds, maxruns, top) for i in range(8)], chunksize=1)
        tot = dict(runs=1, faults=collections.Counter(), codes=collections.Counter(), lines=set(), digests=set(), nontrivial=set(), outside=0, again=0, same=0)
        bad = [(dict(DEFAULT), plain["bad"][prop])] if plain["bad"].get(prop) else []
        if plain["code"] != 0 and prop == "C13":
            bad.append((dict(DEFAULT), ["without any fault, nothing is installed"]))
        for s in sts:
            for k in ("runs", "outside", "again", "same"):
                tot[k] += s[k]
            for k in ("faults", "codes"):
                tot[k].update(s[k])
            for k in ("lines", "digests", "nontrivial"):
                tot[k] |= s[k]
            bad += s["bad"]
        kn = known()
        seen = set()
        for f, j in kn.items():
            if j["property"] == prop:
                r = sim.run(dict(DEFAULT, **j["world"]))
                if r["bad"].get(prop):
                    print(f"KNOWN-FINDING: property={prop} {j['what']} (known/{f})")
        for w, whats in bad:
            for what in whats:
                if kind(what) in seen or len(seen) >= 5:
                    continue
                seen.add(kind(what))
                m = minimise(sim, w, what, prop) if what != "without any fault, nothing is installed" else w
                r = sim.run(m)
                if any(j["property"] == prop and j["world"] == m for j in kn.values()):
                    continue
                os.makedirs(REPL, exist_ok=True)
                path = f"{REPL}/{prop}-{hashlib.sha256(json.dumps(m, sort_keys=True).encode()).hexdigest()[:12]}.json"
                json.dump(dict(simulator="install", property=prop, what=what, seed=seed, world=m, digest=r["digest"], exit=r["code"], commands=r["log"]), open(path, "w"), indent=1)
                print(what)
                for fl in m["faults"]:
                    print("   fault:", fl)
                print("   world:", {k: v for k, v in m.items() if DEFAULT[k] != v and k != "faults"}, "exit", r["code"])
                print(f"VIOLATION property={prop} replay={path}")
                viol.append(path)
                code = 1
        sim.close()
    finally:
        shutil.rmtree(top, ignore_errors=True)
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=tot["runs"], distinct_nontrivial=len(tot["nontrivial"]),
                            rule="one evaluation is one seeded world (release, machine, home directory, terminal) and list of faults, in which the real script runs to its end or is killed; non-trivial if a fault fired, a limit or hostile circumstance (file size limit, script text cut off, no standard output, missing command, unwritable directory) was in force; distinct by the hash of all commands run with their faults, the exit status and the final home directory",
                            distinct_executions=len(tot["digests"]), distinct_command_lines=len(tot["lines"]),
                            faults_injected=dict(sorted(tot["faults"].items())), exit_statuses=dict(tot["codes"]),
                            runs_per_hour=int(tot["runs"] / wall * 3600), seeds_per_hour=int(tot["runs"] / wall * 3600), simulated_time="the script has no notion of time; sleep and date are simulated",
                            executed_twice=tot["again"], of_these_identical=tot["same"],
                            calls_outside_the_scratch_directory_refused=tot["outside"],
                            real_code=["scripts/install-afmt.sh under /bin/bash", "tar, grep, cut, head, basename, mkdir, chmod, rm (behind the fault injector)"],
                            stubs=["curl", "uname", "mktemp", "mv/cp/install (with partial effects and simulated devices)", "the terminal (a pseudo terminal with prepared input)"],
                            samples=[s for st in sts for s in st["samples"]][:4]),
              assumptions=["the simulated commands (sim/install/ext.c) behave like the real ones", "the commands of one pipeline only filter text, so their order does not matter",
                           "a download that is silently wrong but is a valid archive cannot be noticed and is left out"],
              wall_s=round(wall, 1), violations=viol)
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(f"{EVID}/{prop}.json", "w"), indent=1)
    print(f"{prop} {tier} seed={seed}: {tot['runs']} runs, {len(tot['nontrivial'])} distinct non-trivial, {sum(tot['faults'].values())} faults, {len(viol)} violations, {wall:.1f} s")
    return code


if __name__ == "__main__":
    if sys.argv[3] == "replay":
        sys.exit(replay(sys.argv[4]))
    try:
        sys.exit(check(sys.argv[3], sys.argv[4] if len(sys.argv) > 4 else "quick"))
    except Exception:
        import traceback
        traceback.print_exc()
        print("HARNESS ERROR", file=sys.stderr)
        sys.exit(2)
