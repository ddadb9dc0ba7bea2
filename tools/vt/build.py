"""Build the Rust harness (and the shell binary itself) from /repo's current working tree."""
import os, subprocess, sys, time, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")


class ToolError(Exception):
    pass


def cargo_env():
    env = dict(os.environ)
    env.update(PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
               HOME="/root", LANG="C.UTF-8",
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
               CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    # Share /repo's (git-ignored) target folder: its dependencies are compiled with the same
    # settings, so only the workspace crates and the harness are rebuilt.
    env["CARGO_TARGET_DIR"] = os.path.join(REPO, "target")
    return env


def build():
    """Returns dict(vh=path, dsh=path). Raises ToolError when the tree does not build."""
    hd = os.path.join(VERIF, "harness")
    env = cargo_env()
    os.makedirs(env["CARGO_TARGET_DIR"], exist_ok=True)
    if REPO != "/repo":       # development only: a scratch copy of the repository
        hd2 = os.path.join(env["CARGO_TARGET_DIR"], "verif-harness")
        subprocess.run(["rsync", "-a", "--delete", hd + "/", hd2 + "/"], check=True)
        m = open(hd2 + "/Cargo.toml").read().replace("/repo/", REPO + "/")
        open(hd2 + "/Cargo.toml", "w").write(m)
        hd = hd2
    lock = os.path.join(hd, "Cargo.lock")
    with open(os.path.join(env["CARGO_TARGET_DIR"], ".verif-build-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t = time.time()
        saved = open(lock, "rb").read() if os.path.exists(lock) else None
        p = subprocess.run(["cargo", "build", "--offline", "--bins"], cwd=hd, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if saved is not None and open(lock, "rb").read() != saved:
            open(lock, "wb").write(saved)
        if p.returncode != 0:
            sys.stderr.write(p.stdout[-6000:])
            raise ToolError("harness build failed")
    b = os.path.join(env["CARGO_TARGET_DIR"], "debug")
    return dict(vh=os.path.join(b, "vh"), dsh=os.path.join(b, "dshv"), wall=time.time() - t)
