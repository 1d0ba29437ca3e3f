import os, subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
WORK = os.path.join(HERE, ".work")
TOOLCHAIN = "nightly-2025-08-20"


def env():
    e = dict(os.environ)
    e.update(
        HOME="/root",
        RUSTUP_TOOLCHAIN=TOOLCHAIN,
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="",
        CARGO_PROFILE_DEV_DEBUG="line-tables-only",
    )
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    for k in ("BLESS", "ONLY", "EXIT", "RUST_LOG", "CARGO_TARGET_DIR", "RUSTFLAGS"):
        e.pop(k, None)
    return e


def sh(cmd, timeout=None, env_=None, cwd=None):
    """(returncode, stdout, stderr); returncode None on timeout"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=env_ or env(), cwd=cwd, text=True, errors="replace",
                         start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return None, o, e


def sysroot():
    return sh(["rustc", "--print", "sysroot"])[1].strip()
