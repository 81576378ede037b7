"""A virtual MPI world: N ranks run the real code as threads, exactly one at a time, switching only inside communicator
operations, under a seeded scheduling strategy.  The communicator object records every event and detects deadlock exactly
(no rank can ever run again), mismatched collectives, undelivered messages and bad destinations."""
import pickle, random, threading
from collections import deque
import numpy as np
from mpi4py import MPI

STRATEGIES = ("random", "lowest", "highest", "roundrobin", "sticky", "starve0", "starvelast", "antisticky")


class Aborted(BaseException):
    """Raised in a rank to unwind it once the world has failed."""


class World:
    def __init__(self, size, strategy="random", delivery="mixed", seed=0, limit=200000):
        self.size, self.strategy, self.delivery, self.limit = size, strategy, delivery, limit
        self.rng = random.Random("%s/%s/%s/%s" % (size, strategy, delivery, seed))
        self.sem = [threading.Semaphore(0) for _ in range(size)]
        self.wait = [None] * size          # None = runnable, else predicate
        self.why = [""] * size
        self.done = [False] * size
        self.result = [None] * size
        self.error = [None] * size
        self.chan = {}                     # (src, dst) -> deque of messages
        self.coll = []                     # k-th collective: dict(kind, root, data by rank, left)
        self.ncoll = [0] * size
        self.log = []
        self.problems = []                 # (key, text)
        self.abort = False
        self.deadlock = None
        self.last = -1
        self.nid = 0
        self.switches = 0
        self.rs = [None] * size            # per-rank global random states (each MPI process has its own)
        self.finished = threading.Semaphore(0)

    # ------------------------------------------------------------------ scheduling
    def _runnable(self):
        out = []
        for r in range(self.size):
            if self.done[r]:
                continue
            if self.wait[r] is None or self.wait[r]():
                out.append(r)
        return out

    def _choose(self, c):
        s = self.strategy
        if s == "lowest":
            return c[0]
        if s == "highest":
            return c[-1]
        if s == "roundrobin":
            return min(c, key=lambda r: (r - self.last - 1) % self.size)
        if s == "sticky" and self.last in c:
            return self.last if self.rng.random() < 0.97 else self.rng.choice(c)
        if s == "antisticky":
            o = [r for r in c if r != self.last]
            return self.rng.choice(o or c)
        if s == "starve0":
            return self.rng.choice([r for r in c if r != 0] or c)
        if s == "starvelast":
            return self.rng.choice([r for r in c if r != self.size - 1] or c)
        return self.rng.choice(c)

    def _handoff(self, me):
        """Pick who runs next. me=None when the caller has finished."""
        if self.abort:
            nxt = [r for r in range(self.size) if not self.done[r]]
            if not nxt:
                self.finished.release()
                return
            nxt = nxt[0]
        else:
            c = self._runnable()
            if not c:
                if all(self.done):
                    self.finished.release()
                    return
                self.deadlock = {r: self.why[r] for r in range(self.size) if not self.done[r]}
                self.problems.append(("deadlock", "no rank can run: %s" % self.deadlock))
                self.abort = True
                return self._handoff(me)
            nxt = self._choose(c)
        if nxt == me:
            self.last = me
            return
        self.switches += 1
        self.sem[nxt].release()
        if me is not None:
            self.rs[me] = (np.random.get_state(), random.getstate())
            self.sem[me].acquire()
            self._resume(me)

    def _resume(self, me):
        self.last = me
        if self.rs[me] is not None:
            np.random.set_state(self.rs[me][0])
            random.setstate(self.rs[me][1])
        if self.abort:
            raise Aborted()

    def pause(self, me, pred=None, why=""):
        """Scheduling point; returns when the rank is chosen and pred (if any) holds."""
        if len(self.log) > self.limit:
            self.problems.append(("too-many-events", "more than %d communication events" % self.limit))
            self.abort = True
        self.wait[me], self.why[me] = pred, why
        self._handoff(me)
        if self.abort:
            raise Aborted()
        self.wait[me] = None

    def _main(self, r, fn):
        self.sem[r].acquire()
        try:
            self._resume(r)
            self.wait[r] = None
            self.result[r] = fn(Comm(self, r))
        except Aborted:
            pass
        except BaseException as e:  # noqa
            self.error[r] = e
            self.abort = True
        self.done[r] = True
        self._handoff(None)

    def run(self, fn):
        base = (np.random.get_state(), random.getstate())
        self.rs = [base] * self.size
        th = [threading.Thread(target=self._main, args=(r, fn), daemon=True) for r in range(self.size)]
        for t in th:
            t.start()
        self.sem[self._choose(list(range(self.size)))].release()
        self.finished.acquire()
        for t in th:
            t.join()
        np.random.set_state(base[0])
        random.setstate(base[1])
        if not self.abort:
            for (s, d), q in sorted(self.chan.items()):
                for m in q:
                    self.problems.append(("undelivered", "message %d -> %d tag %s never received" % (s, d, m["tag"])))
            if len(set(self.ncoll)) > 1:
                self.problems.append(("collective-count", "ranks made different numbers of collective calls %s" % self.ncoll))
            sent = [e[1] for e in self.log if e[0] == "send"]
            got = [e[1] for e in self.log if e[0] == "recv"]
            if len(got) != len(set(got)) or set(got) - set(sent):
                self.problems.append(("conservation", "a message was received twice or never sent"))
        return self

    def schedule_key(self):
        return tuple((e[0],) + tuple(e[2:5]) for e in self.log)


class Request:
    def __init__(self, comm, fn, ready):
        self.comm, self.fn, self.ready, self.doneval, self.did = comm, fn, ready, None, False

    def wait(self, status=None):
        if not self.did:
            self.doneval, self.did = self.fn(), True
        return self.doneval

    Wait = wait

    def test(self):
        self.comm.w.pause(self.comm.rank, None, "test")
        if self.did or self.ready():
            return True, self.wait()
        return False, None


class Comm:
    """The part of the mpi4py communicator interface a mesh generator could use."""
    def __init__(self, world, rank):
        self.w, self.rank, self.size, self.name = world, rank, world.size, "virtual"

    def __bool__(self):
        return True

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _peer(self, r, what):
        if not isinstance(r, (int, np.integer)) or isinstance(r, bool) or not 0 <= r < self.size:
            self.w.problems.append(("bad-rank", "%s uses rank %r of %d" % (what, r, self.size)))
            raise ValueError("invalid rank %r" % (r,))
        return int(r)

    # ---------------------------------------------------------------- point to point
    def _post(self, obj, dest, tag):
        w = self.w
        w.nid += 1
        m = dict(id=w.nid, tag=tag, data=pickle.dumps(obj, protocol=4), taken=False)
        w.chan.setdefault((self.rank, dest), deque()).append(m)
        w.log.append(("send", m["id"], self.rank, dest, tag, len(m["data"])))
        return m

    def send(self, obj, dest, tag=0):
        w = self.w
        dest = self._peer(dest, "send")
        w.pause(self.rank)
        m = self._post(obj, dest, tag)
        rdv = w.delivery == "rendezvous" or (w.delivery == "mixed" and w.rng.random() < .5) or (w.delivery == "size" and len(m["data"]) > 4096)
        if rdv:
            w.pause(self.rank, lambda: m["taken"], "send to %d tag %s" % (dest, tag))
        else:
            w.pause(self.rank)

    ssend = send

    def isend(self, obj, dest, tag=0):
        dest = self._peer(dest, "isend")
        self.w.pause(self.rank)
        m = self._post(obj, dest, tag)
        return Request(self, lambda: self.w.pause(self.rank, lambda: m["taken"], "wait isend to %d" % dest), lambda: m["taken"])

    def _match(self, source, tag):
        out = []
        for s in (range(self.size) if source == MPI.ANY_SOURCE else [source]):
            for m in self.w.chan.get((s, self.rank), ()):
                if tag == MPI.ANY_TAG or m["tag"] == tag:
                    out.append((s, m))
                    break
        return out

    def recv(self, buf=None, source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG, status=None):
        w = self.w
        if source != MPI.ANY_SOURCE:
            source = self._peer(source, "recv")
        w.pause(self.rank)
        w.pause(self.rank, lambda: bool(self._match(source, tag)), "recv from %s tag %s" % (source, tag))
        s, m = w.rng.choice(self._match(source, tag))
        w.chan[(s, self.rank)].remove(m)
        m["taken"] = True
        w.log.append(("recv", m["id"], s, self.rank, m["tag"]))
        return pickle.loads(m["data"])

    def irecv(self, buf=None, source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG):
        return Request(self, lambda: self.recv(source=source, tag=tag), lambda: bool(self._match(source, tag)))

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=MPI.ANY_SOURCE, recvtag=MPI.ANY_TAG, status=None):
        r = self.isend(sendobj, dest, sendtag)
        out = self.recv(source=source, tag=recvtag)
        r.wait()
        return out

    def iprobe(self, source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG, status=None):
        self.w.pause(self.rank)
        return bool(self._match(source, tag))

    def probe(self, source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG, status=None):
        self.w.pause(self.rank, lambda: bool(self._match(source, tag)), "probe")
        return True

    def Send(self, buf, dest, tag=0):
        self.send(np.array(buf[0] if isinstance(buf, (list, tuple)) else buf), dest, tag)

    def Recv(self, buf, source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG, status=None):
        b = buf[0] if isinstance(buf, (list, tuple)) else buf
        d = np.asarray(self.recv(source=source, tag=tag))
        if d.nbytes > b.nbytes:
            self.w.problems.append(("truncated", "message of %d bytes received into %d" % (d.nbytes, b.nbytes)))
            raise ValueError("message truncated")
        b.ravel()[:d.size] = d.ravel()

    # ---------------------------------------------------------------- collectives
    def _enter(self, kind, root, obj):
        w = self.w
        w.pause(self.rank)
        k = w.ncoll[self.rank]
        w.ncoll[self.rank] += 1
        if k == len(w.coll):
            w.coll.append(dict(kind=kind, root=root, data={}))
        c = w.coll[k]
        if (c["kind"], c["root"]) != (kind, root):
            w.problems.append(("collective-mismatch", "rank %d calls %s(root=%s) where others call %s(root=%s)" % (self.rank, kind, root, c["kind"], c["root"])))
            w.abort = True
            raise Aborted()
        c["data"][self.rank] = pickle.dumps(obj, protocol=4)
        w.log.append(("coll", kind, self.rank, k, root))
        return c

    def _all(self, c):
        self.w.pause(self.rank, lambda: len(c["data"]) == self.size, c["kind"])
        return [pickle.loads(c["data"][r]) for r in range(self.size)]

    def _root(self, c, root):
        """Non-synchronising completion for data that only flows from (or to) the root."""
        if self.w.delivery != "rendezvous" and self.w.rng.random() < .6:
            self.w.pause(self.rank, lambda: root in c["data"], c["kind"])
        else:
            self._all(c)

    def bcast(self, obj=None, root=0):
        root = self._peer(root, "bcast")
        c = self._enter("bcast", root, obj if self.rank == root else None)
        self._root(c, root)
        return obj if self.rank == root else pickle.loads(c["data"][root])

    def scatter(self, sendobj=None, root=0):
        root = self._peer(root, "scatter")
        c = self._enter("scatter", root, sendobj if self.rank == root else None)
        self._root(c, root)
        return pickle.loads(c["data"][root])[self.rank]

    def gather(self, sendobj, root=0):
        root = self._peer(root, "gather")
        c = self._enter("gather", root, sendobj)
        if self.rank == root:
            return self._all(c)
        self._root(c, self.rank)

    def allgather(self, sendobj):
        return self._all(self._enter("allgather", None, sendobj))

    def alltoall(self, sendobj):
        return [d[self.rank] for d in self._all(self._enter("alltoall", None, sendobj))]

    def barrier(self):
        self._all(self._enter("barrier", None, None))

    Barrier = barrier

    @staticmethod
    def _op(op, vals):
        if op == MPI.SUM:
            f = lambda a, b: a + b
        elif op == MPI.MIN:
            f = lambda a, b: np.minimum(a, b) if isinstance(a, np.ndarray) else min(a, b)
        elif op == MPI.MAX:
            f = lambda a, b: np.maximum(a, b) if isinstance(a, np.ndarray) else max(a, b)
        elif op == MPI.LAND:
            f = lambda a, b: bool(a) and bool(b)
        elif op == MPI.LOR:
            f = lambda a, b: bool(a) or bool(b)
        elif op == MPI.PROD:
            f = lambda a, b: a * b
        else:
            raise NotImplementedError("reduction")
        out = vals[0]
        for v in vals[1:]:
            out = f(out, v)
        return out

    def allreduce(self, sendobj, op=MPI.SUM):
        return self._op(op, self._all(self._enter("allreduce:%d" % op.py2f(), None, sendobj)))

    def reduce(self, sendobj, op=MPI.SUM, root=0):
        root = self._peer(root, "reduce")
        c = self._enter("reduce:%d" % op.py2f(), root, sendobj)
        if self.rank == root:
            return self._op(op, self._all(c))
        self._root(c, self.rank)

    @staticmethod
    def _b(buf):
        return buf[0] if isinstance(buf, (list, tuple)) else buf

    def Reduce(self, sendbuf, recvbuf, op=MPI.SUM, root=0):
        v = self.reduce(np.array(self._b(sendbuf)), op, root)
        if self.rank == root:
            self._b(recvbuf)[...] = v

    def Allreduce(self, sendbuf, recvbuf, op=MPI.SUM):
        self._b(recvbuf)[...] = self.allreduce(np.array(self._b(sendbuf)), op)

    def Bcast(self, buf, root=0):
        v = self.bcast(np.array(self._b(buf)), root)
        self._b(buf)[...] = v

    def Gather(self, sendbuf, recvbuf, root=0):
        v = self.gather(np.array(self._b(sendbuf)), root)
        if self.rank == root:
            self._b(recvbuf).ravel()[...] = np.concatenate([x.ravel() for x in v])

    def Allgather(self, sendbuf, recvbuf):
        v = self.allgather(np.array(self._b(sendbuf)))
        self._b(recvbuf).ravel()[...] = np.concatenate([x.ravel() for x in v])

    def Abort(self, code=1):
        raise RuntimeError("MPI abort %s" % code)


def run(size, fn, **kw):
    return World(size, **kw).run(fn)
