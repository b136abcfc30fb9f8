"""Runs scripts in the interactive console: console.py EXE IN.ndjson OUT.ndjson

The console gets a terminal of its own to read from (a pseudo terminal) and a pipe to write to, so that what it prints
is seen byte for byte.  What is printed for a line lies between the echo of that line and the next prompt."""
import fcntl, json, os, pty, re, select, signal, struct, subprocess, sys, tempfile, termios, time

CSI = re.compile(rb"\x1b\[[0-9;?]*[ -/]*[@-~]|\x1b\][^\x07]*\x07|\x1b[^\[\]]")
READY = b"\x1b[?25h"      # the cursor is shown again: the prompt is complete


class Gone(Exception):
    pass


class Console:
    def __init__(self, exe, limit=60):
        self.limit, self.out = limit, b""
        self.master, slave = pty.openpty()
        fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack("HHHH", 60, 30000, 0, 0))
        self.home = tempfile.mkdtemp(prefix="console")

        def child():
            os.setsid()
            fcntl.ioctl(slave, termios.TIOCSCTTY, 0)
        self.p = subprocess.Popen([exe], stdin=slave, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=child, cwd=self.home,
                                  env=dict(os.environ, HOME=self.home, TERM="xterm"))
        os.close(slave)
        self.fd = self.p.stdout.fileno()
        self.hello = self.until(lambda o: READY in o)

    def until(self, done):
        """What is printed until done holds of it and nothing more comes for a moment."""
        end = time.time() + self.limit
        out = b""
        while not done(out):
            left = end - time.time()
            if left <= 0:
                raise Gone("hang")
            r, _, _ = select.select([self.fd, self.master], [], [], left)
            if self.master in r:
                try:
                    os.read(self.master, 65536)      # the terminal's own echo
                except OSError:
                    pass
            if self.fd in r:
                b = os.read(self.fd, 65536)
                if not b:
                    raise Gone("died")
                out += b
        return out

    def line(self, text):
        """Types a line; what the console prints for it."""
        b = text.encode()
        if b:
            for i in range(0, len(b), 400):
                os.write(self.master, b[i:i + 400])
                # the line is drawn again after each piece
                want = b[:i + 400] + b"\x1b["
                self.until(lambda o: want in o and READY in o[o.rindex(want):])
        os.write(self.master, b"\r")
        o = self.until(lambda o: b"\x1b[?25l" in o and READY in o[o.rindex(b"\x1b[?25l"):])
        o = o[:o.index(b"\x1b[?25l", o.index(b"\n"))]
        last = 0
        for m in CSI.finditer(o):
            last = m.end()
        return o[last:].decode("utf-8", "replace")

    def quit(self):
        os.write(self.master, b"\x04")
        try:
            self.until(lambda o: False)
        except Gone:
            pass
        try:
            return self.p.wait(10)
        except subprocess.TimeoutExpired:
            return -1000

    def close(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        self.p.stdout.close()
        os.close(self.master)
        try:
            os.rmdir(self.home)
        except OSError:
            pass


def main(exe, src, dst):
    hung = False
    with open(dst, "w") as f:
        for line in open(src):
            if hung:
                break
            j = json.loads(line)
            c = Console(exe)
            try:
                j["start"] = c.line("world")
                done = []
                for o in j["ops"]:
                    done.append(o)
                    o["out"] = o["after"] = o["gone"] = ""
                    o["out"] = c.line(o["txt"])
                    o["after"] = c.line("world")
            except Gone as e:
                hung = str(e) == "hang"
                if j["ops"]:
                    done[-1]["gone"] = str(e) if done else ""
            else:
                j["exit"] = c.quit()
            c.close()
            j["ops"] = done
            f.write(json.dumps(j) + "\n")


if __name__ == "__main__":
    main(*sys.argv[1:])
