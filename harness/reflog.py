from v8serialize._references import (ForwardReferenceError, IllegalCyclicReferenceV8SerializeError,
                                     ObjectNotSerializedV8SerializeError, SerializedIdOutOfRangeV8SerializeError,
                                     SerializedObjectLog)


class Obj:
    """Compares equal to everything, so that only identity can tell two apart."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1


def lookup(S, log, objs, slots, latest):
    """Compare every lookup with the model."""
    for o in objs:
        S.check((o in log) == (o.n in latest), "membership")
        try:
            i = log.get_serialized_id(o)
        except ObjectNotSerializedV8SerializeError as e:
            S.check(S.same(e.obj, o), "error names another object")
            S.check(o.n not in latest, "recorded object reported as not recorded")
        except ForwardReferenceError:
            S.check(o.n in latest and slots[latest[o.n]] is None, "object reported as pending")
        else:
            S.check(o.n in latest, "unrecorded object found")
            S.check(i == latest[o.n], "wrong ID for an object")
            S.check(slots[i] is not None, "pending object reachable by object")
    i = S.int("id", -6, len(slots) + 3)
    probe(S, log, slots, i)


def probe(S, log, slots, i):
    try:
        got = log.get_object(i)
    except SerializedIdOutOfRangeV8SerializeError as e:
        S.check(e.serialized_id == i, "error names another ID")
        S.check(S.any([i < 0, i >= len(slots)]), "known ID reported as unknown")
        S.reached("unknown id")
    except ForwardReferenceError:
        S.check(S.all([i >= 0, i < len(slots)]), "unknown ID reported as pending")
        S.check(slots[i] is None, "completed ID reported as pending")
        S.reached("pending id")
    else:
        S.check(S.all([i >= 0, i < len(slots)]), "unknown ID found")
        S.check(slots[i] is not None, "pending object reachable by ID")
        S.check(S.same(got, slots[i]), "wrong object for an ID")
        S.reached("known id")


def history(S, n, k):
    """n operations over k objects, then every object and any ID looked up."""
    objs = [Obj(i) for i in range(k)]
    log = SerializedObjectLog()
    slots = []          # ID -> object or None while it is being recorded acyclically
    latest = {}         # object -> ID
    open_ = []          # (context, ID, object)
    for step in range(n):
        op = S.choice("op%d" % step, 5)
        if op == 3 or op == 4:
            S.assume(len(open_) > 0)
            cm, i, o = open_.pop()
            if op == 3:
                cm.__exit__(None, None, None)
            else:
                # the recording ends by an exception
                boom = ValueError("boom")
                try:
                    r = cm.__exit__(ValueError, boom, None)
                except ValueError as e:
                    S.check(S.same(e, boom), "another exception")
                    r = False
                S.check(not r, "exception swallowed")
            slots[i] = o
            continue
        o = objs[S.choice("o%d" % step, k)]
        if op == 0:
            i = log.record_reference(o)
            S.check(i == len(slots), "IDs are not handed out in order")
            slots.append(o)
            latest[o.n] = i
        elif op == 1:
            # replace: only the latest ID may be replaced
            S.assume(len(slots) > 0)
            i = S.int("r%d" % step, -2, len(slots) + 1)
            try:
                log.replace_reference(i, o)
            except ValueError:
                S.check(i != len(slots) - 1, "replacing the latest ID refused")
            else:
                S.check(i == len(slots) - 1, "replaced an ID that is not the latest")
                S.assume(not open_ or open_[-1][1] != len(slots) - 1)   # not while it is pending
                slots[-1] = o
        else:
            cm = log.record_acyclic_reference(o, error_detail="detail")
            i = cm.__enter__()
            S.check(i == len(slots), "IDs are not handed out in order")
            slots.append(None)
            latest[o.n] = i
            open_.append((cm, i, o))
    lookup(S, log, objs, slots, latest)


def nested(S, depth):
    """Acyclic recordings nested in with-blocks; the innermost refers to any ID."""
    log = SerializedObjectLog()
    objs = [Obj(i) for i in range(depth + 1)]
    log.record_reference(objs[depth])
    i = S.int("id", -3, depth + 3)
    done = []

    def level(d):
        if d == depth:
            got = log.get_object(i)
            S.check(i == 0, "reached a pending or unknown ID")
            S.check(S.same(got, objs[depth]), "wrong object")
            S.reached("inner lookup")
            return
        with log.record_acyclic_reference(objs[d]) as sid:
            S.check(sid == d + 1, "IDs are not handed out in order")
            level(d + 1)
        done.append(d)
    try:
        level(0)
    except IllegalCyclicReferenceV8SerializeError as e:
        S.reached("cyclic")
        S.check(S.all([i >= 1, i <= depth]), "cyclic error for an ID that is not pending")
        S.check(e.serialized_id == i, "cyclic error names another ID")
        S.check(S.same(e.obj, objs[i - 1]), "cyclic error names another object")
    except SerializedIdOutOfRangeV8SerializeError as e:
        S.reached("out of range")
        S.check(S.any([i < 0, i > depth]), "known ID out of range")
    else:
        S.check(i == 0, "pending lookup succeeded")
        S.check(len(done) == depth, "levels")
    # afterwards everything is reachable, however it ended
    for d in range(depth):
        S.check(log.get_serialized_id(objs[d]) == d + 1, "not reachable after the recording")
        S.check(S.same(log.get_object(d + 1), objs[d]), "not reachable after the recording")


def big_ids(S):
    """IDs of any size."""
    log = SerializedObjectLog()
    o = [Obj(0), Obj(1), Obj(2)]
    for x in o:
        log.record_reference(x)
    i = S.int("id", -(1 << 70), 1 << 70)
    probe(S, log, o, i)
