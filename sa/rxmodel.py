"""A synchronous model of the reactive pipelines the code uses (rx 3): sources, operators, subscribe and run."""
from .flow import Flow, K, NONE, Obj, T, TUP, is_raise, is_t, RAISE

SOURCES = {"create", "range", "from_iterable", "from_", "empty", "just", "return_value", "of", "from_callable", "defer"}
PASS = {"subscribe_on", "observe_on", "as_observable", "share", "publish", "ref_count"}


class RxFlow(Flow):
    """observables are terms T("rx", source, operators); pushing a value runs the operators in order"""

    def ext_call(self, st, name, args, kw, n):
        if name.startswith("rx.operators."):
            return [(st, T("rxop", name.rsplit(".", 1)[1], tuple(args), tuple(kw.items())))]
        if name.startswith("rx.") and name.count(".") == 1 and name[3:] in SOURCES:
            return [(st, T("rx", (name[3:], tuple(args)), ()))]
        return super().ext_call(st, name, args, kw, n)

    def opaque_method(self, st, base, name, args, kw, n):
        if is_t(base, "rx"):
            if name == "pipe":
                return [(st, T("rx", base[2], base[3] + tuple(args)))]
            if name == "subscribe":
                cb = dict(zip(("on_next", "on_error", "on_completed"), args))
                cb.update(kw)
                return [(s, v if is_raise(v) else NONE) for s, v in self.rx_start(st, base, cb, n)]
            if name == "run":
                sink = st.new(Obj("inst", "rx.Sink", fields={"last": NONE, "n": K(0)}))
                out = []
                for s, v in self.rx_start(st, base, {"on_next": T("rxsink", sink)}, n):
                    if is_raise(v):
                        out.append((s, v))
                    elif s.heap[sink[1]].fields["n"] == K(0):
                        out.append((s, RAISE("SequenceContainsNoElementsError")))
                    else:
                        out.append((s, s.heap[sink[1]].fields["last"]))
                return out
        if base[0] == "o" and st.heap[base[1]].kind == "inst" and st.heap[base[1]].cls == "rx.Observer":
            if name == "on_next" and args:
                return self.rx_push(st, base, 0, args[0], n)
            if name == "on_completed":
                st.w(base[1]).fields["done"] = K(st.heap[base[1]].fields["done"][2] + 1)
                return self.rx_done(st, base, 0, n)
            if name == "on_error":
                return [(st, RAISE("rx.error", args[0] if args else None))]
        return super().opaque_method(st, base, name, args, kw, n)

    # ------------------------------------------------------------------
    def rx_start(self, st, ob, cb, n):
        ops = ob[3]
        obs = st.new(Obj("inst", "rx.Observer", fields={"ops": ops, "cb": tuple(cb.items()), "done": K(0)}))
        for i, op in enumerate(ops):
            if is_t(op, "rxop") and op[2] in ("last", "first"):
                st.w(obs[1]).fields["st%d" % i] = NONE
            if is_t(op, "rxop") and op[2] in ("buffer_with_count", "to_list", "to_iterable", "sum", "count", "reduce", "scan", "take"):
                st.w(obs[1]).fields["st%d" % i] = st.new(Obj("list"))
        kind, args = ob[2]
        none = lambda s, v: [(s, NONE)]
        if kind == "create":
            return self.bind(self.call(st, args[0], [obs, NONE], {}, n), none)
        if kind in ("from_callable", "defer"):
            def produced(s, v):
                return self.rx_start(s, v, {"on_next": T("rxinner", obs, 0)}, n) if is_t(v, "rx") else self.rx_feed(s, obs, [v], n)
            return self.bind(self.call(st, args[0], [] if kind == "from_callable" else [NONE], {}, n), produced)
        if kind in ("empty", "just", "return_value", "of"):
            items = list(args) if kind != "empty" else []
            return self.rx_feed(st, obs, items, n)
        if kind in ("from_iterable", "from_"):
            src = [(st, args[0])]
        else:
            src = self.builtin(st, "range", list(args), {}, n)
        out = []
        for s, v in src:
            if is_raise(v):
                out.append((s, v))
                continue
            for s2, items in self.items_of(s, v, n):
                out.extend([(s2, items)] if isinstance(items, tuple) and items[:1] == ("raise",) else self.rx_feed(s2, obs, list(items), n))
        return out

    def rx_feed(self, st, obs, items, n):
        cur = [(st, NONE)]
        for x in items:
            cur = self.bind(cur, lambda s, _: self.rx_push(s, obs, 0, x, n))
        def fin(s, _):
            s.w(obs[1]).fields["done"] = K(s.heap[obs[1]].fields["done"][2] + 1)
            return self.rx_done(s, obs, 0, n)
        return self.bind(cur, fin)

    def rx_push(self, st, obs, i, v, n):
        o = st.heap[obs[1]]
        ops = o.fields["ops"]
        if i >= len(ops):
            cb = dict(o.fields["cb"]).get("on_next")
            if cb is None or cb == NONE:
                return [(st, NONE)]
            if is_t(cb, "rxsink"):
                w = st.w(cb[2][1])
                w.fields["last"], w.fields["n"] = v, K(w.fields["n"][2] + 1)
                return [(st, NONE)]
            if is_t(cb, "rxinner"):
                return self.rx_push(st, cb[2], cb[3], v, n)
            return self.bind(self.call(st, cb, [v], {}, n), lambda s, _: [(s, NONE)])
        op = ops[i]
        if not is_t(op, "rxop"):
            return self.bind(self.rx_unknown(st, op, v, n), lambda s, x: self.rx_push(s, obs, i + 1, x, n))
        name, args, kw = op[2], op[3], dict(op[4])
        nxt = lambda s, x: self.rx_push(s, obs, i + 1, x, n)
        if name == "map":
            return self.bind(self.call(st, args[0], [v], {}, n), nxt)
        if name in ("do_action", "do"):
            f = kw.get("on_next", args[0] if args else NONE)
            if f == NONE:
                return nxt(st, v)
            return self.bind(self.call(st, f, [v], {}, n), lambda s, _: nxt(s, v))
        if name == "filter":
            out = []
            for s, c in self.call(st, args[0], [v], {}, n):
                if is_raise(c):
                    out.append((s, c))
                    continue
                for s2, b in self.truth(s, c):
                    out.extend(nxt(s2, v) if b is True else [(s2, NONE)] if b is False else [(s2, b)])
            return out
        if name in ("flat_map", "merge", "merge_all", "concat_map"):
            inner = self.call(st, args[0], [v], {}, n) if name in ("flat_map", "concat_map") else [(st, v)]
            def sub(s, x):
                if is_t(x, "rx"):
                    return self.rx_start(s, x, {"on_next": T("rxinner", obs, i + 1)}, n)
                return nxt(s, x)
            return self.bind(inner, sub)
        if name in ("to_list", "to_iterable", "sum", "count"):
            buf = o.fields["st%d" % i]
            st.w(buf[1]).items = st.heap[buf[1]].items + (v,)
            return [(st, NONE)]
        if name in ("reduce", "scan") and args:
            buf = o.fields["st%d" % i]
            items = st.heap[buf[1]].items or args[1:2] or tuple(x for k, x in op[4] if k == "seed")
            def acc(s, x):
                s.w(buf[1]).items = (x,)
                return nxt(s, x) if name == "scan" else [(s, NONE)]
            return self.bind(self.call(st, args[0], [items[-1], v], {}, n), acc) if items else acc(st, v)
        if name == "take" and args and args[0][0] == "c":
            buf = o.fields["st%d" % i]
            items = st.heap[buf[1]].items + (v,)
            st.w(buf[1]).items = items
            return nxt(st, v) if len(items) <= args[0][2] else [(st, NONE)]
        if name == "last":
            st.w(obs[1]).fields["st%d" % i] = TUP((v,))
            return [(st, NONE)]
        if name == "buffer_with_count":
            buf = o.fields["st%d" % i]
            items = st.heap[buf[1]].items + (v,)
            if args and args[0][0] == "c" and len(items) >= args[0][2]:
                full = st.new(Obj("list", items=items))
                st.w(buf[1]).items = ()
                return nxt(st, full)
            st.w(buf[1]).items = items
            return [(st, NONE)]
        if name in PASS:
            return nxt(st, v)
        return self.bind(self.rx_unknown(st, op, v, n), nxt)

    def rx_unknown(self, st, op, v, n):
        return [(st, st.fresh("rxval", v))]

    def rx_done(self, st, obs, i, n):
        o = st.heap[obs[1]]
        ops = o.fields["ops"]
        if i >= len(ops):
            cb = dict(o.fields["cb"]).get("on_completed")
            if cb is None or cb == NONE:
                return [(st, NONE)]
            return self.bind(self.call(st, cb, [], {}, n), lambda s, _: [(s, NONE)])
        op = ops[i]
        nxt = lambda s, _: self.rx_done(s, obs, i + 1, n)
        if is_t(op, "rxop"):
            name, args, kw = op[2], op[3], dict(op[4])
            if name in ("do_action", "do") and kw.get("on_completed", NONE) != NONE:
                return self.bind(self.call(st, kw["on_completed"], [], {}, n), nxt)
            if name == "last":
                v = o.fields["st%d" % i]
                if v == NONE:
                    return [(st, RAISE("SequenceContainsNoElementsError"))]
                return self.bind(self.rx_push(st, obs, i + 1, v[1][0], n), nxt)
            if name in ("to_list", "to_iterable", "count", "sum"):
                items = st.heap[o.fields["st%d" % i][1]].items
                vals = st.new(Obj("list", items=items))
                r = [(st, vals)] if name.startswith("to_") else [(st, K(len(items)))] if name == "count" and not args else None
                if r is None:
                    its = [(st, list(items))]
                    if args:
                        its = []
                        for s, v in self.builtin(st, "map" if name == "sum" else "filter", [args[0], vals], {}, n):
                            its.append((s, v if is_raise(v) else self.exact(s, v)))
                    r = []
                    for s, x in its:
                        if isinstance(x, tuple):
                            r.append((s, x))
                        elif name == "count":
                            r.append((s, K(len(x))))
                        else:
                            r.extend(self.builtin(s, "sum", [s.new(Obj("list", items=tuple(x)))], {}, n))
                return self.bind(r, lambda s, v: self.bind(self.rx_push(s, obs, i + 1, v, n), nxt))
            if name == "reduce":
                items = st.heap[o.fields["st%d" % i][1]].items
                return self.bind(self.rx_push(st, obs, i + 1, items[-1], n), nxt) if items else nxt(st, NONE)
            if name == "buffer_with_count":
                items = st.heap[o.fields["st%d" % i][1]].items
                if items:
                    return self.bind(self.rx_push(st, obs, i + 1, st.new(Obj("list", items=items)), n), nxt)
        return nxt(st, NONE)
