"""C25: random service definitions -> the code generated from them -> programs that use it.

The definitions, what they mean and the programs come from this file; the generated code is
only compiled and run, never looked at (except for its comments and its place on disk).
"""
import json, os, random, re, shutil, subprocess, sys, time
import zvbuild

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ZV_REPO", "/repo")  # another tree only when testing the machinery itself
ROOT = "github.com/livekit/psrpc/zvgen"
PB = "google.golang.org/protobuf/types/known/"

# well-known messages: proto name -> (go import path, go type, file, carries a token)
WKT = {
    "google.protobuf.Empty": (PB + "emptypb", "Empty", "google/protobuf/empty.proto", False),
    "google.protobuf.StringValue": (PB + "wrapperspb", "StringValue", "google/protobuf/wrappers.proto", True),
    "google.protobuf.Duration": (PB + "durationpb", "Duration", "google/protobuf/duration.proto", False),
}

SVC = ["Room", "room_service", "ABC", "x", "_hidden", "Svc2go", "RPC", "Client", "server", "psrpc", "Context", "a_b_C", "io_2_info", "Rand", "ServerImpl", "Unimplemented", "New", "myService", "T"]
METH = ["Get", "get_it", "GetIT", "_under", "do2it", "DoABC", "list_all_2", "Type", "range", "Func", "String", "Error", "Register", "Svc", "Rpc", "Context", "Client", "Publish", "Server",
        "Psrpc", "Start", "x", "UpdateParticipant", "Deregister", "Subscribe", "All", "Send", "Affinity", "New", "nil", "return", "ID", "Stop2", "S", "C", "Topic", "RegisterAll", "Err", "a_1_b", "Open_", "Channel"]
TOPIC = ["room", "region", "node_id", "a", "A1", "ID", "topic", "roomName", "_x", "x_1", "Topic_Type", "shard"]
TOPIC_HARD = ["type", "range", "ctx", "req", "opts", "msg", "s", "c", "client", "server", "string", "nil", "error", "context", "psrpc", "func", "info", "map", "default", "append", "svc", "rand", "err", "package", "bus", "go", "version", "var"]
GROUP = ["nodes", "Room", "all_rooms", "g", "_g", "X2"]
MSG = ["Req", "Res", "my_message", "_Lead", "A_b_2c", "lower", "M2m", "ALLCAPS", "Type", "a_1", "Request_", "Client_msg", "X", "Zz9"]
DEP = ["client", "context", "info", "psrpc", "rand", "server", "version", "acme.v1", "common", "a.b.c", "google2.rpc", "topic", "room", "req", "s", "c", "ctx", "msg", "opts", "string", "type", "err", "rpc", "svc", "bus", "main", "sd", "nil", "error", "byte"]
COMMENT = ["does things", "*/ not the end", "`quoted` \\\"text\\\"", "//go:build never", "%s %d", "package other", "import \\\"os\\\"", "Привет, 世界", "trailing backslash \\\\", "func init() { panic(1) }", "Deprecated: no longer", "  indented"]


def camel(s):
    """The Go name of a protobuf name (as documented for protoc-gen-go)."""
    out, i = "", 0
    if s.startswith("_"):
        out, i = "X", 1
    while i < len(s):
        ch = s[i]
        if ch == "_" and i + 1 < len(s) and s[i + 1].islower():
            i += 1
            continue
        if ch.isdigit():
            out += ch
            i += 1
            continue
        if ch.islower():
            ch = ch.upper()
        out += ch
        i += 1
        while i < len(s) and s[i].islower():
            out += s[i]
            i += 1
    return out


class Gen:
    def __init__(self, seed, idx, hard):
        self.r = random.Random("%s/%s/%s" % (seed, idx, hard))
        self.u = "u%d" % idx
        self.idx = idx
        self.hard = hard
        self.files = {}      # proto path -> text
        self.runs = []       # lists of proto files of one Go package
        self.names = set()
        self.maps = {}       # imported files whose Go package is given on the command line
        self.msgs = []       # (proto full name, go import path, go type, file, token)
        self.services = []
        self.docs = []       # (proto path, comment line)
        self.features = set()
        self.build()

    def pick(self, seq):
        return self.r.choice(seq)

    def chance(self, p):
        return self.r.random() < p

    def messages(self, fpath, pkg, imp, n, used):
        """Text and registry of n random messages of a file."""
        out = []
        names = [m for m in MSG if camel(m + "U%d" % self.idx) not in used]
        self.r.shuffle(names)
        for name in names[:n]:
            name += "U%d" % self.idx  # one program holds every unit
            used.add(camel(name))
            full = (pkg + "." if pkg else "") + name
            kind = self.r.random()
            body = "  string tok = 1;\n" if kind < 0.8 else "  int64 num = 1;\n"
            if self.chance(0.3):
                body += "  optional string maybe = 2;\n"
                self.features.add("proto3-optional")
            self.msgs.append((full, imp, camel(name), fpath, kind < 0.8))
            if self.chance(0.35):
                inner = self.pick(["Inner", "in_ner", "_I", "N1"])
                goin = camel(name) + ("" if inner[0].islower() else "_") + camel(inner)
                ib = "    string tok = 3;\n"
                self.msgs.append((full + "." + inner, imp, goin, fpath, True))
                self.features.add("nested")
                if self.chance(0.4):
                    ib += "    message Deep { string value = 1; }\n"
                    self.msgs.append((full + "." + inner + ".Deep", imp, goin + "_Deep", fpath, True))
                body += "  message %s {\n%s  }\n" % (inner, ib)
            out.append("message %s {\n%s}\n" % (name, body))
        return out

    def build(self):
        r = self.r
        self.mode = self.pick(["relative", "relative", "import", "module"])
        self.features.add("paths-" + self.mode)
        # imported packages
        ndep = self.pick([0, 1, 1, 2, 3])
        deps = []
        for d in range(ndep):
            pkg = self.pick(DEP) if self.hard or self.chance(0.5) else self.pick(["acme.v1", "common", "a.b.c"])
            if any(x[1] == pkg for x in deps):
                continue
            dirn = "%s/d%d" % (self.u, d)
            imp = ROOT + "/" + dirn
            gp = imp if self.chance(0.6) else imp + ";" + self.pick(["types", "pb", "client", "x_y"])
            # names in common with another package only where none is imported publicly
            if self.chance(0.25):
                gp = "example.com/elsewhere/%s" % dirn
                mapped = True
                self.features.add("import-mapping")
            else:
                mapped = False
            used = set() if self.idx % 3 == 0 else self.names
            nf = self.pick([1, 1, 2])
            run = []
            for f in range(nf):
                fpath = "%s/f%d.proto" % (dirn, f)
                text = 'syntax = "proto3";\npackage %s;\noption go_package = "%s";\n\n' % (pkg, gp)
                text += "\n".join(self.messages(fpath, pkg, imp, self.pick([1, 2]), used))
                self.files[fpath] = text
                if mapped:
                    self.maps[fpath] = imp
                run.append(fpath)
            self.runs.append(run)
            deps.append((run, pkg))
            self.features.add("import")
            self.features.add("dep:" + pkg)
        # the package itself
        dirn = self.u + "/" + self.pick(["api", "my-api", "v1", "client", "x"] + (["type", "2fa", "psrpc", "context"] if self.hard else []))
        imp = ROOT + "/" + dirn
        pkg = self.pick([self.u + "pkg", self.u + ".v1", self.u, "livekit." + self.u])
        if self.hard and deps and deps[0][1] != "main" and self.chance(0.3):
            # the Go package is called like an imported protobuf package
            gp = imp + ";" + re.sub(r"\W", "_", deps[0][1])
            self.features.add("same-name")
        else:
            gp = imp if self.chance(0.6) else imp + ";" + self.pick(["mine", "my_api", "apipb"])
        nfiles = self.pick([1, 1, 1, 2, 3])
        optpath = "options.proto"
        if self.hard and self.chance(0.4):
            optpath = "protoc-gen-psrpc/options/options.proto"
        self.optpath = optpath
        used = self.names
        run = []
        own0 = len(self.msgs)
        texts = []
        for f in range(nfiles):
            fpath = "%s/s%d.proto" % (dirn, f)
            texts.append((fpath, self.messages(fpath, pkg, imp, self.pick([1, 2, 3]), used)))
            run.append(fpath)
        own = self.msgs[own0:]
        pool = list(own)
        for m in self.msgs[:own0]:
            pool.append(m)
        for n, (ip, gt, fp, tk) in WKT.items():
            if self.chance(0.4):
                pool.append((n, ip, gt, fp, tk))
        svcs_used = set()
        for fi, (fpath, msgs) in enumerate(texts):
            imports = set()
            body = []
            nsvc = self.pick([1, 1, 2]) if fi == 0 else self.pick([0, 1, 1])
            for _ in range(nsvc):
                cands = [s for s in SVC if camel(s) not in svcs_used and camel(s) not in used and camel(s).lower() not in (x.lower() for x in svcs_used)]
                if not cands:
                    break
                name = self.pick(cands)
                svcs_used.add(camel(name))
                earlier = set(f for f, _ in texts[:fi + 1])
                body.append(self.service(name, imp, [m for m in pool if m[3] in earlier or m[3] not in run], imports, fpath))
            head = ""
            if self.chance(0.5):
                c = self.pick(COMMENT)
                head = "// %s\n" % self.plain(c)
                if nsvc:
                    self.docs.append((fpath, self.plain(c)))
            text = 'syntax = "proto3";\n\n' + head + 'package %s;\n\noption go_package = "%s";\n\n' % (pkg, gp)
            imports.discard(fpath)
            if imports and self.idx % 3 and self.chance(0.4):
                # some of the imports come through another file
                via = "%s/pub%d/pub.proto" % (self.u, fi)
                some = [i for i in sorted(imports) if self.chance(0.6) and not i.startswith(dirn)]
                if some:
                    self.files[via] = 'syntax = "proto3";\npackage %s.pub%d;\noption go_package = "%s/%s/pub%d;pub";\n' % (self.u, fi, ROOT, self.u, fi) + "".join('import public "%s";\n' % i for i in some)
                    imports -= set(some)
                    imports.add(via)
                    self.runs.append([via])
                    self.features.add("import-public")
            if nsvc:
                imports.add(optpath)
            text += "".join('import "%s";\n' % i for i in sorted(imports)) + "\n"
            text += "\n".join(body) + "\n" + "\n".join(msgs)
            self.files[fpath] = text
        self.runs.append(run)

    @staticmethod
    def plain(c):
        return c.replace('\\"', '"').replace("\\\\", "\\")

    def service(self, pname, imp, pool, imports, fpath):
        r = self.r
        name = camel(pname)
        ms, gs = [], {}
        nm = self.pick([0, 1, 2, 3, 4, 5, 6, 7])
        taken = {"Close", "Shutdown", "Kill"}
        out = []
        if self.chance(0.5):
            c = self.plain(self.pick(COMMENT))
            out.append("// " + c)
            self.docs.append((fpath, c))
        out.append("service %s {" % pname)
        typed_seen = []
        for _ in range(nm):
            pm = self.pick(METH)
            m = camel(pm)
            kind = self.pick(["unary", "unary", "unary", "multi", "stream", "stream", "sub", "sub"])
            typ = {"multi": "MULTI"}.get(kind) or self.pick(["QUEUE", "QUEUE", "AFFINITY"])
            if kind == "sub":
                typ = self.pick(["QUEUE", "MULTI"])
            topics = self.chance(0.5)
            derived = {m, "Subscribe" + m, "Publish" + m, "Register%sTopic" % m, "Deregister%sTopic" % m, m + "Affinity"}
            if derived & taken:
                continue
            taken |= derived
            opts = []
            tp = []       # Go types of the topic parameters
            params = []
            group, single, typed = "", False, False
            if topics:
                opts.append("topics = true")
                if self.chance(0.75):
                    want = None
                    if kind != "sub" and self.chance(0.5):
                        group = self.pick(GROUP)
                        if camel(group) in (camel(g) for g in gs if g != group):
                            group = ""
                        elif group in gs:
                            want = gs[group]
                        else:
                            dg = {"RegisterAll%sTopics" % camel(group), "DeregisterAll%sTopics" % camel(group)}
                            if dg & taken:
                                group = ""
                            else:
                                taken |= dg
                    if want:
                        params, typed = want["params"], want["typed"]
                    else:
                        n = self.pick([1, 1, 2, 3])
                        names = TOPIC + (TOPIC_HARD if self.hard else [])
                        while len(params) < n:
                            p = self.pick(names)
                            if camel(p).lower() not in (camel(q).lower() for q in params):
                                params.append(p)
                        if self.chance(0.1):
                            params = []
                        typed = self.chance(0.5)
                    single = kind != "multi" and kind != "sub" and self.chance(0.3)
                    parts = []
                    if group:
                        parts.append('group: "%s"' % group)
                    if params:
                        parts.append("names: [%s]" % ", ".join('"%s"' % p for p in params))
                    if typed:
                        parts.append("typed: true")
                    if single:
                        parts.append("single_server: true")
                    opts.append("topic_params = { %s }" % ", ".join(parts))
                if params and typed:
                    tp = ["T" + camel(p) for p in params]
                    for p in params:
                        if camel(p) not in typed_seen:
                            typed_seen.append(camel(p))
                else:
                    tp = ["string"] * (len(params) or 1)
                if group and group not in gs:
                    gs[group] = dict(params=params, typed=typed, members=[], tp=tp)
                if group:
                    gs[group]["members"].append(m)
            elif self.hard and self.chance(0.15):
                # parameters of topics that the method does not have
                opts.append('topic_params = { group: "unused", names: ["%s"], typed: true }' % self.pick(TOPIC))
                self.features.add("params-without-topics")
            if kind == "stream":
                opts.append("stream = true")
            if kind == "sub":
                opts.append("subscription = true")
            old = self.chance(0.25)
            if old:
                opts.append({"MULTI": "multi = true", "AFFINITY": "affinity_func = true", "QUEUE": "queue = true"}[typ])
                self.features.add("deprecated-routing")
            elif typ != "QUEUE" or self.chance(0.3):
                opts.append("type = " + typ)
            elif self.hard and self.chance(0.2):
                opts.append(self.pick(["multi = false", "affinity_func = false"]))
                self.features.add("deprecated-routing-false")
            i, o = self.pick(pool), self.pick(pool)
            for x in (i, o):
                imports.add(x[3])
            r.shuffle(opts)
            if self.chance(0.5):
                c = self.plain(self.pick(COMMENT))
                out.append("  // " + c)
                self.docs.append((fpath, c))
            sm = ("stream " if kind == "stream" and self.chance(0.5) else "")
            out.append("  rpc %s(%s.%s) returns (%s.%s) {%s}" % (pm, sm, i[0], sm, o[0], "".join(" option (.psrpc.options).%s;" % x for x in opts)))
            ms.append(dict(name=m, kind=kind, typ=typ, tp=tp if topics else None, single=single, group=group, i=i, o=o))
        out.append("}")
        self.services.append(dict(name=name, imp=imp, ms=ms, gs=gs, typed=typed_seen))
        return "\n".join(out) + "\n"

    # ---- the program that uses the generated code ----
    def driver(self):
        imps = {}

        def al(path):
            return imps.setdefault(path, "z%d" % len(imps))

        def gt(m):
            return al(m[1]) + "." + m[2]

        b = []
        types = set()
        for si, s in enumerate(self.services):
            p = al(s["imp"])
            pre = "%s_%d_" % (self.u, si)
            n = s["name"]
            targs = ""
            if s["typed"]:
                targs = "[%s]" % ", ".join("%s_T%s" % (self.u, t) for t in s["typed"])
                types |= set(s["typed"])

            def conv(tp, var="tp"):
                out = []
                for k, t in enumerate(tp):
                    t = t if t == "string" else "%s_%s" % (self.u, t)
                    out.append("%s(%s[%d])" % (t, var, k))
                return out

            b.append("type %simpl struct {\n\tr *rec\n\tid int\n}" % pre)
            for m in s["ms"]:
                i, o, mn = gt(m["i"]), gt(m["o"]), m["name"]
                aff = m["typ"] == "AFFINITY"
                if m["kind"] == "sub":
                    continue
                if m["kind"] == "stream":
                    b.append("func (x *%simpl) %s(st psrpc.ServerStream[*%s, *%s]) error {\n\treturn serveStream(x.r, x.id, %q, st, func() *%s { return new(%s) })\n}".replace("%q", '"%s"') % (pre, mn, o, i, mn, o, o))
                    if aff:
                        b.append("func (x *%simpl) %sAffinity(context.Context) float32 { return x.r.affinity(x.id, \"%s\") }" % (pre, mn, mn))
                else:
                    b.append("func (x *%simpl) %s(_ context.Context, req *%s) (*%s, error) {\n\treturn serve(x.r, x.id, \"%s\", req, new(%s))\n}" % (pre, mn, i, o, mn, o))
                    if aff:
                        b.append("func (x *%simpl) %sAffinity(context.Context, *%s) float32 { return x.r.affinity(x.id, \"%s\") }" % (pre, mn, i, mn))
            b.append("var _ %s.%sServerImpl = (*%simpl)(nil)" % (p, n, pre))
            b.append("var _ %s.%sServerImpl = %s.Unimplemented%sServer{}" % (p, n, p, n))
            b.append("func init() {")
            b.append("\tvar sv [2]%s.%sServer%s\n\tvar cl [2]%s.%sClient%s\n\t_, _ = sv, cl" % (p, n, targs, p, n, targs))
            b.append("\ts := &Svc{unit: \"%s\", name: \"%s\"}" % (self.u, n))
            b.append("\ts.start = func(e *env) (err error) {\n\t\tfor i := range sv {\n\t\t\tif sv[i], err = %s.New%sServer%s(&%simpl{e.r, i}, e.bus, e.sopts()...); err != nil {\n\t\t\t\treturn\n\t\t\t}\n\t\t\tif cl[i], err = %s.New%sClient%s(e.bus); err != nil {\n\t\t\t\treturn\n\t\t\t}\n\t\t}\n\t\treturn\n\t}" % (p, n, targs, pre, p, n, targs))
            b.append("\ts.unimpl = func(e *env) (err error) {\n\t\tif sv[0], err = %s.New%sServer%s(%s.Unimplemented%sServer{}, e.bus); err != nil {\n\t\t\treturn\n\t\t}\n\t\tcl[0], err = %s.New%sClient%s(e.bus)\n\t\treturn\n\t}" % (p, n, targs, p, n, p, n, targs))
            b.append("\ts.shutdown = func(i int) { sv[i].Shutdown() }\n\ts.kill = func(i int) { sv[i].Kill() }\n\ts.closeCl = func(i int) { cl[i].Close() }")
            for m in s["ms"]:
                i, o, mn = gt(m["i"]), gt(m["o"]), m["name"]
                aff = m["typ"] == "AFFINITY" and m["kind"] != "sub"
                tps = conv(m["tp"] or [])
                targ = "".join(", " + x for x in tps)
                b.append("\ts.ms = append(s.ms, &M{name: \"%s\", kind: \"%s\", affinity: %s, multi: %s, topics: %d, single: %s, group: \"%s\", canTok: %s," % (
                    mn, m["kind"], str(aff).lower(), str(m["typ"] == "MULTI").lower(), -1 if m["tp"] is None else len(m["tp"]), str(m["single"]).lower(), m["group"], str(m["i"][4] and m["o"][4]).lower()))
                if m["kind"] == "unary":
                    b.append("\t\tcall: func(ctx context.Context, c int, tp []string, tok string, opts ...psrpc.RequestOption) (string, error) {\n\t\t\tvar res *%s\n\t\t\tvar err error\n\t\t\tres, err = cl[c].%s(ctx%s, put(new(%s), tok), opts...)\n\t\t\treturn get(res), err\n\t\t}," % (o, mn, targ, i))
                elif m["kind"] == "multi":
                    b.append("\t\tcalls: func(ctx context.Context, c int, tp []string, tok string, opts ...psrpc.RequestOption) (got []string, errs []error, err error) {\n\t\t\tvar ch <-chan *psrpc.Response[*%s]\n\t\t\tif ch, err = cl[c].%s(ctx%s, put(new(%s), tok), opts...); err != nil {\n\t\t\t\treturn\n\t\t\t}\n\t\t\tfor r := range ch {\n\t\t\t\tif r.Err != nil {\n\t\t\t\t\terrs = append(errs, r.Err)\n\t\t\t\t} else {\n\t\t\t\t\tgot = append(got, get(r.Result))\n\t\t\t\t}\n\t\t\t}\n\t\t\treturn\n\t\t}," % (o, mn, targ, i))
                elif m["kind"] == "stream":
                    b.append("\t\topen: func(ctx context.Context, c int, tp []string, opts ...psrpc.RequestOption) (*stream, error) {\n\t\t\tvar st psrpc.ClientStream[*%s, *%s]\n\t\t\tvar err error\n\t\t\tif st, err = cl[c].%s(ctx%s, opts...); err != nil {\n\t\t\t\treturn nil, err\n\t\t\t}\n\t\t\treturn &stream{send: func(tok string) error { return st.Send(put(new(%s), tok)) }, recv: func() (string, bool) {\n\t\t\t\tm, ok := <-st.Channel()\n\t\t\t\treturn get(m), ok\n\t\t\t}, stop: func() { st.Close(nil) }}, nil\n\t\t}," % (i, o, mn, targ, i))
                else:
                    b.append("\t\tpub: func(ctx context.Context, i int, tp []string, tok string) error { return sv[i].Publish%s(ctx%s, put(new(%s), tok)) }," % (mn, targ, o))
                    b.append("\t\tsub: func(ctx context.Context, c int, tp []string) (*stream, error) {\n\t\t\tvar st psrpc.Subscription[*%s]\n\t\t\tvar err error\n\t\t\tif st, err = cl[c].Subscribe%s(ctx%s); err != nil {\n\t\t\t\treturn nil, err\n\t\t\t}\n\t\t\treturn &stream{recv: func() (string, bool) {\n\t\t\t\tm, ok := <-st.Channel()\n\t\t\t\treturn get(m), ok\n\t\t\t}, stop: func() { st.Close() }}, nil\n\t\t}," % (o, mn, targ))
                if m["tp"] is not None and m["kind"] != "sub":
                    b.append("\t\treg: func(i int, tp []string) error { return sv[i].Register%sTopic(%s) }," % (mn, ", ".join(tps)))
                    b.append("\t\tdereg: func(i int, tp []string) { sv[i].Deregister%sTopic(%s) }," % (mn, ", ".join(tps)))
                if m["kind"] != "sub":
                    un = "%s.Unimplemented%sServer{}" % (p, n)
                    if m["kind"] == "stream":
                        a = "%s.%sAffinity(ctx), true" % (un, mn) if aff else "0, false"
                        b.append("\t\tunimplemented: func(ctx context.Context) (error, float32, bool) { return %s.%s(nil), %s }," % (un, mn, a))
                    else:
                        a = "%s.%sAffinity(ctx, new(%s)), true" % (un, mn, i) if aff else "0, false"
                        b.append("\t\tunimplemented: func(ctx context.Context) (error, float32, bool) {\n\t\t\t_, err := %s.%s(ctx, new(%s))\n\t\t\treturn err, %s\n\t\t}," % (un, mn, i, a))
                b.append("\t})")
            for g, d in s["gs"].items():
                if not d["members"]:
                    continue
                tps = ", ".join(conv(d["tp"]))
                b.append("\ts.gs = append(s.gs, &G{name: \"%s\", topics: %d, members: []string{%s},\n\t\treg: func(i int, tp []string) error { return sv[i].RegisterAll%sTopics(%s) },\n\t\tdereg: func(i int, tp []string) { sv[i].DeregisterAll%sTopics(%s) },\n\t})" % (
                    camel(g), len(d["tp"]), ", ".join('"%s"' % x for x in d["members"]), camel(g), tps, camel(g), tps))
            b.append("\tservices = append(services, s)\n}\n")
        text = "\n".join(b)
        imps = {k: v for k, v in imps.items() if re.search(r"\b%s\." % v, text)}
        head = "package main\n\nimport (\n\t\"context\"\n\n\t\"github.com/livekit/psrpc\"\n" + "".join('\t%s "%s"\n' % (a, p) for p, a in imps.items()) + ")\n\n"
        head += "var _ context.Context\nvar _ psrpc.ErrorCode\n"
        head += "".join("\ntype %s_T%s string\n" % (self.u, t) for t in sorted(types))
        return head + "\n" + text


def sh(cmd, cwd, timeout=600, **kw):
    return subprocess.run(cmd, cwd=cwd, env=zvbuild.goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)


def tools(work):
    """The plugins: psrpc's from /repo's tree, and protoc-gen-go from the module cache."""
    mod = os.path.join(work, "gl.mod")
    shutil.copy(os.path.join(REPO, "go.mod"), mod)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(work, "gl.sum"))
    out = []
    for name, pkg in (("protoc-gen-psrpc", "./protoc-gen-psrpc"), ("protoc-gen-go", "google.golang.org/protobuf/cmd/protoc-gen-go")):
        exe = os.path.join(work, name)
        r = sh(["go", "build", "-modfile", mod, "-o", exe, pkg], REPO)
        if r.returncode != 0:
            raise SystemExit("cannot build %s:\n%s" % (name, r.stdout[-3000:]))
        out.append(exe)
    return mod, out[0], out[1]


def protoc(g, src, out, run, plugins, psrpc_only=False):
    args = ["protoc", "--plugin=protoc-gen-psrpc=" + plugins[0], "-I" + src]
    args += ["-I" + (os.path.join(REPO, "protoc-gen-psrpc/options") if g.optpath == "options.proto" else REPO)]
    opt = {"relative": "paths=source_relative", "import": "paths=import", "module": "module=github.com/livekit/psrpc"}[g.mode]
    opt += "".join(",M%s=%s" % x for x in sorted(g.maps.items()))
    if not psrpc_only:
        args += ["--plugin=protoc-gen-go=" + plugins[1], "--go_out=" + out, "--go_opt=" + opt]
    args += ["--psrpc_out=" + out, "--psrpc_opt=" + opt]
    return sh(args + run, src, timeout=120)


def listing(d):
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out


def generate(g, work, plugins, viol):
    """-> {package-relative path: file} of the generated code, or None"""
    base = os.path.join(work, g.u)
    src, out, out2 = (os.path.join(base, x) for x in ("src", "out", "out2"))
    for d in (src, out, out2):
        os.makedirs(d)
    for p, t in g.files.items():
        f = os.path.join(src, p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "w") as fh:
            fh.write(t)

    def bad(rule, key, msg):
        viol.append(dict(property="C25", rule=rule, key=key, msg="%s: %s" % (g.u, msg), case="genlab %s (hard %s)" % (g.u, g.hard),
                         trace="\n\n".join("// %s\n%s" % x for x in g.files.items())))

    for run in g.runs:
        r = protoc(g, src, out, run, plugins)
        if r.returncode != 0:
            bad("generate", "", "the plugin rejects a valid definition: " + r.stdout[:600])
            return None
        r = protoc(g, src, out2, run, plugins, True)
    a, b = listing(out), listing(out2)
    ps = {k: v for k, v in a.items() if k.endswith(".psrpc.go")}
    if ps != b:
        bad("deterministic", "", "generating the same definition twice gives different code (%s)" % sorted(k for k in set(ps) | set(b) if ps.get(k) != b.get(k)))
    prefix = {"relative": "", "import": ROOT[:-len("zvgen")], "module": ""}[g.mode]
    files = {}
    for k, v in a.items():
        if not k.startswith(prefix) and not (g.mode == "module" and k.startswith("zvgen/")):
            bad("place", "", "%s was written outside of its package" % k)
            return None
        k2 = k[len(prefix):]
        if k2.startswith("zvgen/"):
            k2 = k2[len("zvgen/"):]
        files[k2] = v
    want = {f.replace(".proto", ".psrpc.go") for f, t in g.files.items() if re.search(r"^service ", t, re.M)}
    got = {k for k in files if k.endswith(".psrpc.go")}
    if want != got:
        bad("place", "", "generated %s, expected %s" % (sorted(got), sorted(want)))
        return None
    for f, c in g.docs:
        text = files.get(f.replace(".proto", ".psrpc.go"), b"").decode()
        if not any(l.strip().startswith("//") and c.strip() in l for l in text.split("\n")):
            bad("comments", "", "the comment %r of %s is not in the generated code" % (c, f))
    return files


def errors_by_unit(text):
    out = {}
    for l in text.split("\n"):
        if l.startswith("#"):
            continue
        m = re.search(r"(?:zvgen|gl\d+)/(?:zmain/)?(u\d+)[_/]", l)
        if m:
            out.setdefault(m.group(1), []).append(l)
    return out


INVALID = [
    ("group-mismatch", "mismatch", '''rpc A(M) returns (M) { option (psrpc.options).topics = true; option (psrpc.options).topic_params = { group: "g", names: ["a", "b"] }; }
  rpc B(M) returns (M) { option (psrpc.options).topics = true; option (psrpc.options).topic_params = { group: "g", names: ["b", "a"] }; }''', ""),
    ("group-typed-mismatch", "mismatch", '''rpc A(M) returns (M) { option (psrpc.options).topics = true; option (psrpc.options).topic_params = { group: "g", names: ["a"], typed: true }; }
  rpc B(M) returns (M) { option (psrpc.options).topics = true; option (psrpc.options).topic_params = { group: "g", names: ["a"] }; }''', ""),
    ("unknown-parameter", "nonsense", "rpc A(M) returns (M);", "nonsense=1"),
    ("bad-paths", "paths", "rpc A(M) returns (M);", "paths=elsewhere"),
    ("no-value", "k=v", "rpc A(M) returns (M);", "paths"),
]


def invalid(work, plugin, viol):
    n = 0
    d = os.path.join(work, "invalid")
    os.makedirs(d)
    for name, expect, body, opt in INVALID:
        with open(os.path.join(d, name + ".proto"), "w") as f:
            f.write('syntax = "proto3";\npackage inv;\noption go_package = "x/inv";\nimport "options.proto";\nmessage M {}\nservice S {\n  %s\n}\n' % body)
        out = os.path.join(d, name)
        os.makedirs(out)
        r = sh(["protoc", "--plugin=protoc-gen-psrpc=" + plugin, "-I" + d, "-I" + os.path.join(REPO, "protoc-gen-psrpc/options"), "--psrpc_out=" + out] + (["--psrpc_opt=" + opt] if opt else []) + [name + ".proto"], d, timeout=60)
        n += 1
        if r.returncode == 0 or listing(out):
            viol.append(dict(property="C25", rule="invalid", key=name, msg="an invalid request (%s) was not refused" % name, case="genlab invalid " + name, trace=r.stdout))
        elif expect not in r.stdout or "panic:" in r.stdout:
            viol.append(dict(property="C25", rule="invalid", key=name, msg="refusing %s does not say why: %s" % (name, r.stdout[:300]), case="genlab invalid " + name, trace=r.stdout))
    return n


def batch(gs, work, mod, plugins, viol, prob, results):
    """Generates, compiles and runs one batch of units."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda g: generate(g, work, plugins, viol), gs))
    alive = [(g, f) for g, f in zip(gs, outs) if f is not None]
    exe = os.path.join(work, "zvgen.exe")
    for attempt in range(6):
        rep = {REPO + "/zvgen/zmain/main.go": os.path.join(HERE, "genlab", "lab.go")}
        for g, files in alive:
            dst = os.path.join(work, g.u, "final")
            for k, v in files.items():
                p = os.path.join(dst, k)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(v)
                rep[REPO + "/zvgen/" + k] = p
            p = os.path.join(dst, "driver.go")
            with open(p, "w") as f:
                f.write(g.driver())
            rep[REPO + "/zvgen/zmain/%s_driver.go" % g.u] = p
        ov = os.path.join(work, "gl-overlay.json")
        with open(ov, "w") as f:
            json.dump({"Replace": rep}, f)
        if os.path.exists(exe):
            os.remove(exe)
        r = sh(["go", "build", "-gcflags=all=-e", "-modfile", mod, "-overlay", ov, "-o", exe, "./zvgen/zmain"], REPO)
        if r.returncode == 0:
            break
        errs = errors_by_unit(r.stdout.replace(work, "zvgen/zmain"))
        if not errs:
            prob.append("the laboratory does not build: " + r.stdout[-3000:])
            return
        for g, f in list(alive):
            if g.u in errs:
                viol.append(dict(property="C25", rule="compile", key="", msg="%s: the generated code does not compile, or lacks what the definition says: %s" % (g.u, " / ".join(errs[g.u][:3])[:700]),
                                 case="genlab %s (hard %s)" % (g.u, g.hard), trace="\n".join(errs[g.u][:40]) + "\n\n" + "\n\n".join("// %s\n%s" % x for x in g.files.items())))
        alive = [x for x in alive if x[0].u not in errs]
        if not alive:
            return
    else:
        prob.append("the laboratory does not build after removing the units that do not compile")
        return
    res = os.path.join(work, "gl-result.json")
    if os.path.exists(res):
        os.remove(res)
    try:
        r = subprocess.run([exe, res], cwd=work, env=zvbuild.goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=240)
    except subprocess.TimeoutExpired:
        prob.append("the programs using the generated code did not end within 240 s")
        return
    try:
        with open(res) as f:
            rs = json.load(f)
    except (OSError, ValueError):
        viol.append(dict(property="C25", rule="crash", key="", msg="the programs using the generated code crashed: " + r.stdout[:600], case="genlab", trace=r.stdout[:8000]))
        return
    by = {g.u: g for g, _ in alive}
    for x in rs:
        results.append(x)
        for v in x["violations"] or []:
            g = by[x["unit"]]
            viol.append(dict(property="C25", rule=v["rule"], key="", msg=v["msg"], case="genlab %s (hard %s)" % (g.u, g.hard),
                             trace="\n\n".join("// %s\n%s" % y for y in g.files.items())))
    return


def run(work, tier, seed, binfo, units=None):
    t0 = time.time()
    viol, prob, results = [], [], []
    mod, pp, pg = tools(work)
    n = invalid(work, pp, viol)
    per, batches = (36, 1) if tier == "quick" else (48, 8)
    if units:
        per, batches = units, 1
    feats, svcs = {}, 0
    kinds = {}
    gs = []
    for b in range(batches):
        gs = [Gen(seed, b * per + k, k % 2 == 1) for k in range(per)]
        w = os.path.join(work, "gl%d" % b)
        os.makedirs(w)
        batch(gs, w, mod, (pp, pg), viol, prob, results)
        shutil.rmtree(w, ignore_errors=True)
        for g in gs:
            for f in g.features:
                feats[f] = feats.get(f, 0) + 1
            svcs += len(g.services)
    counts = {}
    for x in results:
        for k, v in x["counts"].items():
            counts[k] = counts.get(k, 0) + v
    sigs = {x["sig"] for x in results if x["sig"]}
    return dict(violations=viol, problems=prob, evaluations=svcs + n, distinct=len(sigs),
                samples=[{"case": "genlab " + x["unit"] + "." + x["service"], "methods": x["sig"]} for x in results[:4]],
                coverage={"definitions": per * batches, "services": svcs, "services_exercised": len(results), "checks": counts, "features": feats, "invalid_requests": n, "secs": round(time.time() - t0, 1)})


if __name__ == "__main__":
    import tempfile
    w = tempfile.mkdtemp(prefix="gl-")
    try:
        o = run(w, "quick", int(sys.argv[1]) if len(sys.argv) > 1 else 1, {}, int(sys.argv[2]) if len(sys.argv) > 2 else None)
        for v in o["violations"]:
            print("VIOL", v["rule"], v["case"], v["msg"][:500])
        for p in o["problems"]:
            print("PROBLEM", p[:2500])
        print(json.dumps(o["coverage"])[:1500], o["distinct"])
    finally:
        shutil.rmtree(w, ignore_errors=True)
