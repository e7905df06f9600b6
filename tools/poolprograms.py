"""Programs that use a process pool and whose outcome does not depend on the schedule."""
import concurrent.futures
import multiprocessing
import multiprocessing.pool
import os
import queue
import sys
import threading
import time

STATE = 0


def init(v):
    global STATE
    STATE = v


def init_bad():
    raise ValueError("initializer")


def sq(x):
    return x * x + STATE


def pair(a, b=3):
    return a, b


def fail(x):
    if x == 2:
        raise KeyError("two")
    return x


def stop(x):
    raise StopIteration


def leave(x):
    sys.exit(3)


def cannot(x):
    return lambda: x


def count(x):
    global STATE
    STATE += 1
    return STATE


def nested(x):
    with multiprocessing.Pool(1) as p:
        return p.map(sq, [x])


def daemon(x):
    return multiprocessing.current_process().daemon


class Odd(Exception):
    def __init__(self, a, b):
        super().__init__(a)
        self.b = b


def odd(x):
    raise Odd(1, 2)


class OddSafe(Exception):
    def __init__(self, a, b=None):
        super().__init__(a)
        self.b = b


def odd_safe(x):
    raise OddSafe("safe")


def die(x):
    os.kill(os.getpid(), 9)


def put_in(q, i):
    q.put(i * 10)


def echo(c):
    while (x := c.recv()) is not None:
        c.send(x + 1)


def add_to(v):
    for _ in range(5):
        with v.get_lock():
            v.value += 1


def pingpong(a, b):
    a.wait()
    b.set()


def threads_inside(x):
    out = []
    ts = [threading.Thread(target=lambda i=i: out.append(x * i)) for i in range(3)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return sorted(out)


def got(fn):
    try:
        return repr(fn())
    except Exception as e:
        return "%s: %s" % (type(e).__name__, str(e).split(" at 0x")[0])


def programs(Pool):
    def p_map():
        with Pool(3) as p:
            return p.map(sq, range(17))

    def p_map_chunk():
        with Pool(2) as p:
            return p.map(sq, range(17), chunksize=4), p.map(sq, []), p.map(sq, iter(range(3)))

    def p_imap():
        with Pool(3) as p:
            return list(p.imap(sq, range(9))), list(p.imap(sq, (i for i in range(9)), chunksize=2)), list(p.imap(sq, []))

    def p_unordered():
        with Pool(3) as p:
            return sorted(p.imap_unordered(sq, range(9))), sorted(p.imap_unordered(sq, range(9), chunksize=4))

    def p_star():
        with Pool(2) as p:
            return p.starmap(pair, [(1, 2), (3,), (4, 5)]), p.starmap_async(pair, [(1,), (2,)]).get()

    def p_apply():
        with Pool(2) as p:
            r = [p.apply_async(pair, (i,), dict(b=i)) for i in range(5)]
            return p.apply(sq, (3,)), [x.get() for x in r], [x.successful() for x in r]

    def p_callback():
        seen = []
        with Pool(2) as p:
            r = [p.apply_async(sq, (i,), callback=seen.append) for i in range(4)]
            r.append(p.map_async(fail, [1, 2], error_callback=lambda e: seen.append(str(e))))
            for x in r:
                x.wait()
            p.close()
            p.join()
        return sorted(map(str, seen))

    def p_init():
        with Pool(2, init, (5,)) as p:
            return p.map(sq, range(3))

    def p_error():
        with Pool(2) as p:
            return got(lambda: p.map(fail, range(5))), p.map(sq, range(2)), got(lambda: list(p.imap(fail, range(5)))), got(lambda: p.apply(fail, (2,)))

    def p_imap_after():
        with Pool(2) as p:
            it = p.imap(fail, range(5))
            return [got(it.next) for _ in range(7)]

    def p_stop():
        with Pool(2) as p:
            return got(lambda: p.map(stop, [1])), got(lambda: p.apply(stop, (1,))), got(lambda: list(p.imap(stop, [1, 2])))

    def p_cannot():
        with Pool(2) as p:
            return got(lambda: p.map(cannot, [1]))[:60], got(lambda: p.map(lambda x: x, [1]))[:60]

    def p_odd_safe():
        with Pool(2) as p:
            return got(lambda: p.map(odd_safe, [1]))

    def p_bad_iter():
        def g():
            yield 1
            raise OSError("iterable")
        with Pool(2) as p:
            return got(lambda: p.map(sq, g())), got(lambda: list(p.imap(sq, g()))), got(lambda: sorted(p.imap_unordered(sq, g())))

    def p_closed():
        p = Pool(2)
        r = p.map_async(sq, range(6))
        p.close()
        a = got(lambda: p.map(sq, [1]))
        p.join()
        return a, r.get(), got(lambda: p.apply(sq, (1,)))

    def p_terminated():
        p = Pool(2)
        p.terminate()
        p.join()
        return got(lambda: p.map(sq, [1])), got(lambda: p.imap(sq, [1]))

    def p_running():
        p = Pool(2)
        a = got(p.join)
        p.terminate()
        p.join()
        return a

    def p_exit():
        with Pool(2) as p:
            q = p
        return got(lambda: q.map(sq, [1]))

    def p_recycled():
        with Pool(1, maxtasksperchild=2) as p:
            return p.map(count, range(7), chunksize=1)

    def p_recycled_chunks():
        with Pool(1, maxtasksperchild=2) as p:
            return p.map(count, range(7), chunksize=3)

    def p_state():
        with Pool(1) as p:
            return p.map(count, range(4)), p.map(count, range(2)), STATE

    def p_nested():
        with Pool(1) as p:
            return got(lambda: p.map(nested, [1])), p.map(daemon, [1])

    def p_poll():
        with Pool(2) as p:
            r = p.map_async(sq, range(5))
            while not r.ready():
                time.sleep(0.001)
            return r.get()

    def p_callback_event():
        ev, seen = threading.Event(), []
        with Pool(2) as p:
            p.apply_async(sq, (3,), callback=lambda v: (seen.append(v), ev.set()))
            ev.wait()
        return seen

    def p_thread():
        out = []
        ts = [threading.Thread(target=lambda i=i: out.append(sq(i))) for i in range(4)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return sorted(out), [t.is_alive() for t in ts]

    def p_thread_queue():
        q, out = queue.Queue(2), []

        def work():
            while True:
                x = q.get()
                if x is None:
                    return
                out.append(sq(x))
        t = threading.Thread(target=work, daemon=True)
        t.start()
        for i in range(9):
            q.put(i)
        q.put(None)
        t.join(60)
        return out

    def p_thread_pool():
        with multiprocessing.pool.ThreadPool(3) as p:
            return (p.map(sq, range(9)), list(p.imap(sq, range(5))), sorted(p.imap_unordered(sq, range(9), chunksize=2)),
                    got(lambda: p.map(fail, range(5))), p.apply_async(pair, (1,)).get())

    def p_thread_pool_close():
        p = multiprocessing.pool.ThreadPool(2)
        r = p.map_async(sq, range(6))
        p.close()
        p.join()
        return r.get()

    def p_thread_executor():
        with concurrent.futures.ThreadPoolExecutor(3) as e:
            a = list(e.map(sq, range(9)))
            f = [e.submit(fail, i) for i in range(4)]
            b = [got(x.result) for x in f]
            c = sorted(x.result() for x in concurrent.futures.as_completed([e.submit(sq, i) for i in range(4)]))
        return a, b, c, got(lambda: e.submit(sq, 1))

    def p_executor():
        with concurrent.futures.ProcessPoolExecutor(3) as e:
            a = list(e.map(sq, range(9))), list(e.map(pair, range(5), range(4), chunksize=2))
            f = [e.submit(fail, i) for i in range(4)]
            b = [got(x.result) for x in f]
            c = sorted(x.result() for x in concurrent.futures.as_completed([e.submit(sq, i) for i in range(4)]))
            d = concurrent.futures.wait([e.submit(sq, i) for i in range(4)])
        return a, b, c, len(d.done), len(d.not_done), got(lambda: e.submit(sq, 1))

    def p_executor_init():
        with concurrent.futures.ProcessPoolExecutor(2, initializer=init, initargs=(7,)) as e:
            return list(e.map(sq, range(3)))

    def p_executor_init_bad():
        with concurrent.futures.ProcessPoolExecutor(2, initializer=init_bad) as e:
            return got(lambda: type(list(e.map(sq, range(3)))))[:17]

    def p_executor_dead():
        with concurrent.futures.ProcessPoolExecutor(2) as e:
            return got(lambda: list(e.map(die, range(3))))[:17]

    def p_executor_unpickle():
        with concurrent.futures.ProcessPoolExecutor(1) as e:
            return got(e.submit(cannot, 1).result)[:40], got(e.submit(leave, 1).result) if False else "", got(e.submit(sq, 2).result)

    def p_executor_noexit():
        e = concurrent.futures.ProcessPoolExecutor(2)
        f = [e.submit(sq, i) for i in range(5)]
        e.shutdown()
        return [x.result() for x in f]

    def p_process():
        q = multiprocessing.Queue()
        ps = [multiprocessing.Process(target=put_in, args=(q, i)) for i in range(3)]
        for p in ps:
            p.start()
        r = sorted(q.get() for _ in ps)
        for p in ps:
            p.join()
        return r, [p.exitcode for p in ps], [p.is_alive() for p in ps]

    def p_process_pipe():
        a, b = multiprocessing.Pipe()
        p = multiprocessing.Process(target=echo, args=(b,))
        p.start()
        out = []
        for i in range(3):
            a.send(i)
            out.append(a.recv())
        a.send(None)
        p.join()
        return out, p.exitcode

    def p_process_fail():
        p = multiprocessing.Process(target=leave, args=(1,))
        p.start()
        p.join()
        p2 = multiprocessing.Process(target=die, args=(1,))
        p2.start()
        p2.join()
        return p.exitcode, p2.exitcode

    def p_process_shared():
        v = multiprocessing.Value("i", 0)
        ps = [multiprocessing.Process(target=add_to, args=(v,)) for i in range(3)]
        for p in ps:
            p.start()
        for p in ps:
            p.join()
        return v.value

    def p_process_event():
        a, b = multiprocessing.Event(), multiprocessing.Event()
        p = multiprocessing.Process(target=pingpong, args=(a, b))
        p.start()
        a.set()
        r = b.wait(60)
        p.join()
        return r

    def p_thread_in_worker():
        with Pool(2) as p:
            return p.map(threads_inside, range(4))

    def p_barrier():
        b, out = threading.Barrier(3), []

        def w():
            out.append(b.wait() >= 0)
        ts = [threading.Thread(target=w) for _ in range(3)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return out

    def p_args():
        return got(lambda: Pool(0)), got(lambda: Pool(2, 3)), got(lambda: Pool(2, maxtasksperchild=0))

    def p_lock():
        v = multiprocessing.Value("i", 0)
        with Pool(3, init, (v,)) as p:
            p.map(add, range(30))
        return v.value

    def p_array():
        a = multiprocessing.RawArray("i", 12)
        with Pool(3, init, (a,)) as p:
            p.map(put, range(12))
        return list(a)

    def p_many():
        with Pool(2) as p, Pool(2) as q:
            r = [x.map_async(sq, range(6)) for x in (p, q)]
            return [x.get() for x in r]

    def p_pickle():
        import pickle
        with Pool(1) as p:
            return got(lambda: pickle.dumps(p))

    def p_workers():
        with Pool(3) as p:
            w = list(p._pool)
            a = len(w), [x.exitcode for x in w], [x.is_alive() for x in w]
        return a

    def p_recycled_code():
        with Pool(1, maxtasksperchild=1) as p:
            w = list(p._pool)
            p.map(sq, range(3), chunksize=1)
            time.sleep(0.5)
            p.map(sq, range(1))
            return [x.exitcode for x in w]

    return {k[2:]: v for k, v in locals().items() if k.startswith("p_")}


def add(x):
    with STATE.get_lock():
        v = STATE.value
        STATE.value = v + x


def put(i):
    STATE[i] = i * i


def run(name):
    return got(programs(multiprocessing.Pool)[name])


def names():
    return sorted(programs(None))


if __name__ == "__main__":
    print(run(sys.argv[1]))
    sys.stdout.flush()
    os._exit(0)
