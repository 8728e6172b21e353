"""A small SQL reader: enough of SQLite's SELECT / INSERT / UPDATE / DELETE / CREATE TABLE to compare what statements mean."""
import re

TOK = re.compile(r'\s*(?:--[^\n]*\n|("(?:[^"]|"")*")|(\'(?:[^\']|\'\')*\')|(\?\d*)|(\d+)|([A-Za-z_][A-Za-z_0-9]*)|(<=|>=|<>|!=|==|[-+*/(),.;=<>])|(\S))')
COLS = {}


class Unread(Exception):
    pass


def tokens(s):
    out, i = [], 0
    s = s.strip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m or m.end() == i:
            break
        i = m.end()
        q, st, b, n, w, o, x = m.groups()
        if q:
            out.append(("id", q[1:-1].lower()))
        elif st:
            out.append(("str", st[1:-1]))
        elif b:
            out.append(("bind", b[1:]))
        elif n:
            out.append(("num", int(n)))
        elif w:
            out.append(("w", w.lower()))
        elif o:
            out.append(("op", o))
        elif x:
            raise Unread("character " + x)
    return out


class P:
    def __init__(self, toks, binds, schema):
        self.t, self.i, self.binds, self.n, self.schema = toks, 0, binds, 0, schema

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("end", None)

    def kw(self, *ws):
        for k, w in enumerate(ws):
            if self.peek(k) != ("w", w):
                return False
        self.i += len(ws)
        return True

    def op(self, o):
        if self.peek() == ("op", o):
            self.i += 1
            return True
        return False

    def need(self, ok, what):
        if not ok:
            raise Unread("expected %s at %s" % (what, self.peek()))

    def name(self):
        k, v = self.peek()
        self.need(k in ("id", "w"), "a name")
        self.i += 1
        return v

    def col(self, tables):
        a = self.name()
        if self.op("."):
            c = self.name()
            a = self.alias.get(a, a) if hasattr(self, "alias") else a
            return ("col", a, c)
        own = [t for t in tables if a in self.schema.get(t, ())]
        if len(own) != 1:
            raise Unread("column %s" % a)
        return ("col", own[0], a)

    def value(self, tables):
        k, v = self.peek()
        if k == "num":
            self.i += 1
            return ("num", v)
        if k == "op" and v == "-":
            self.i += 1
            k, v = self.peek()
            self.need(k == "num", "a number")
            self.i += 1
            return ("num", -v)
        if k == "str":
            self.i += 1
            return ("str", v)
        if k == "bind":
            self.i += 1
            if v:
                j = int(v)
                self.n = max(self.n, j)
            else:
                self.n += 1
                j = self.n
            if j > len(self.binds):
                raise Unread("unbound ?%d" % j)
            return ("bind", self.binds[j - 1])
        if (k, v) == ("w", "max") and self.peek(1) == ("op", "("):
            self.i += 2
            c = self.col(tables)
            self.need(self.op(")"), ")")
            return ("max", c)
        if k in ("id", "w"):
            return self.col(tables)
        raise Unread("value " + str(v))

    def cond(self, tables):
        """List of conjuncts (lhs, op, rhs)."""
        out = self.term(tables)
        while self.kw("and"):
            out += self.term(tables)
        if self.kw("or"):
            return [("or", tuple(out), tuple(self.cond(tables)))]
        return out

    def term(self, tables):
        if self.op("("):
            c = self.cond(tables)
            self.need(self.op(")"), ")")
            return c
        a = self.value(tables)
        if self.kw("in"):
            self.need(self.op("("), "(")
            s = self.select()
            self.need(self.op(")"), ")")
            if len(s["cols"]) != 1 or s["limit"] is not None or s["order"]:
                raise Unread("in")
            tables += [t for t in s["tables"] if t not in tables]
            return [canon(a, "=", s["cols"][0])] + s["cond"]
        if self.kw("is", "not"):
            return [("is not", a, self.value(tables))]
        for o in ("<=", ">=", "<>", "!=", "==", "=", "<", ">"):
            if self.op(o):
                return [canon(a, {"==": "=", "!=": "<>"}.get(o, o), self.value(tables))]
        return [canon(a, "<>", ("num", 0))]

    def select(self):
        self.need(self.kw("select"), "select")
        self.kw("distinct")
        i0 = self.i
        depth = 0
        while self.peek()[0] != "end" and not (depth == 0 and self.peek() == ("w", "from")):
            depth += {"(": 1, ")": -1}.get(self.peek()[1], 0)
            self.i += 1
        i1 = self.i
        self.need(self.kw("from"), "from")
        outer = getattr(self, "alias", {})
        self.alias = dict(outer)
        tables = [self.table()]
        cond = []
        while True:
            if self.kw("inner", "join") or self.kw("join") or self.op(","):
                tables.append(self.table())
                if self.kw("on"):
                    cond += self.cond(tables)
            else:
                break
        if self.peek()[1] in ("left", "cross", "natural", "group", "union"):
            raise Unread(self.peek()[1])
        if self.kw("where"):
            cond += self.cond(tables)
        order = []
        if self.kw("order", "by"):
            while True:
                c = self.col(tables)
                d = "desc" if self.kw("desc") else (self.kw("asc"), "asc")[1]
                order.append((c, d))
                if not self.op(","):
                    break
        limit = None
        if self.kw("limit"):
            limit = self.value(tables)
        end = self.i
        self.i = i0
        cols = []
        while self.i < i1:
            if self.op("*"):
                cols.append(("star",))
            else:
                cols.append(self.value(tables))
            if self.kw("as"):
                self.name()
            if not self.op(","):
                break
        if self.i != i1:
            raise Unread("columns")
        self.i = end
        self.alias = outer
        return {"kind": "select", "cols": cols, "tables": tables, "cond": cond, "order": order, "limit": limit}

    def table(self):
        t = self.name()
        if self.kw("as") or self.peek()[0] == "id" or self.peek()[0] == "w" and self.peek()[1] not in ("inner", "join", "on", "where", "order", "limit", "left", "cross", "natural", "set", "group", "union"):
            self.alias[self.name()] = t
        if t not in self.schema:
            raise Unread("table " + t)
        return t

    def stmt(self):
        if self.peek() == ("w", "select"):
            s = self.select()
        elif self.kw("insert"):
            mode = "insert"
            if self.kw("or"):
                mode = "insert or " + self.name()
            self.need(self.kw("into"), "into")
            t = self.name()
            cols = []
            self.need(self.op("("), "(")
            while True:
                cols.append(self.name())
                if not self.op(","):
                    break
            self.need(self.op(")"), ")")
            self.need(self.kw("values"), "values")
            self.need(self.op("("), "(")
            vals = []
            while True:
                vals.append(self.value([]))
                if not self.op(","):
                    break
            self.need(self.op(")"), ")")
            s = {"kind": mode, "table": t, "set": dict(zip(cols, vals))}
        elif self.kw("update"):
            self.alias = {}
            t = self.table()
            self.need(self.kw("set"), "set")
            sets = {}
            while True:
                c = self.name()
                self.need(self.op("="), "=")
                sets[c] = self.value([t])
                if not self.op(","):
                    break
            s = {"kind": "update", "table": t, "set": sets, "cond": self.cond([t]) if self.kw("where") else []}
        elif self.kw("delete", "from"):
            self.alias = {}
            t = self.table()
            s = {"kind": "delete", "table": t, "cond": self.cond([t]) if self.kw("where") else []}
        else:
            raise Unread(str(self.peek()[1]))
        self.op(";")
        if self.peek()[0] != "end":
            raise Unread("trailing " + str(self.peek()[1]))
        return s


FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "=": "=", "<>": "<>"}


def canon(a, o, b):
    """Column first; a column with a smaller name first between columns."""
    if b[0] == "col" and (a[0] != "col" or b[1:] < a[1:]):
        a, o, b = b, FLIP[o], a
    return (o, a, b)


def parse(sql, binds, schema):
    return P(tokens(sql), binds, schema).stmt()


def read_schema(sql):
    """({table: [column]}, {(table, column): (ref table, ref column, on delete)}, {table: [unique column]})"""
    cols, fks, uniq = {}, {}, {}
    for m in re.finditer(r'create\s+table\s+(?:if\s+not\s+exists\s+)?"?(\w+)"?\s*\((.*?)\)\s*;', sql + ";", re.I | re.S):
        t, body = m.group(1).lower(), m.group(2)
        parts, depth, cur = [], 0, ""
        for ch in body:
            depth += {"(": 1, ")": -1}.get(ch, 0)
            if ch == "," and depth == 0:
                parts.append(cur)
                cur = ""
            else:
                cur += ch
        parts.append(cur)
        cols[t] = []
        for p in parts:
            p = p.strip()
            f = re.match(r'(?:constraint\s+\S+\s+)?foreign\s+key\s*\(\s*"?(\w+)"?\s*\)\s*references\s+"?(\w+)"?\s*\(\s*"?(\w+)"?\s*\)(.*)$', p, re.I | re.S)
            if f:
                fks[(t, f.group(1).lower())] = (f.group(2).lower(), f.group(3).lower(), bool(re.search(r"on\s+delete\s+cascade", f.group(4), re.I)))
                continue
            k = re.match(r'(?:primary\s+key|unique)\s*\(\s*"?(\w+)"?\s*\)', p, re.I)
            if k:
                uniq.setdefault(t, set()).add(k.group(1).lower())
                continue
            c = re.match(r'"?(\w+)"?(.*)$', p, re.S)
            if c and c.group(1).lower() not in ("check", "constraint", "primary", "unique", "foreign"):
                n = c.group(1).lower()
                cols[t].append(n)
                if re.search(r"\bunique\b|primary\s+key", c.group(2), re.I):
                    uniq.setdefault(t, set()).add(n)
                r = re.search(r'references\s+"?(\w+)"?\s*\(\s*"?(\w+)"?\s*\)(.*)$', c.group(2), re.I | re.S)
                if r:
                    fks[(t, n)] = (r.group(1).lower(), r.group(2).lower(), bool(re.search(r"on\s+delete\s+cascade", r.group(3), re.I)))
    return cols, fks, uniq
