"""Independent oracle of T03: script that reports what it computes

The tree of the script is rewritten (without the code of noWorkflow) to
report the value of every expression that it evaluates, with the position of
the expression and the frame that evaluated it.
"""
import ast
import inspect
import sys

# no value of their own
SKIP = (ast.Starred, ast.Slice, ast.FormattedValue)
# results depend on the frame that calls them
FRAME = ("super", "locals", "globals", "vars", "dir", "eval", "exec")


def position(node):
    return (node.lineno, node.col_offset, node.end_lineno,
            node.end_col_offset)


def load_of(node):
    return ast.copy_location(ast.Name(id=getattr(node, "id", None)
                                      or node.arg, ctx=ast.Load()), node)


class Tracing(ast.NodeTransformer):
    """Wrap expressions"""

    def __init__(self):
        self.kinds = {}        # position -> kind of expression
        self.skip = set()      # positions with loads and stores

    def wrap(self, node, kind, pos=None):
        pos = pos or position(node)
        self.kinds[pos] = kind
        call = ast.Call(
            func=ast.Name(id="__trace__", ctx=ast.Load()),
            args=[ast.Constant(value=pos), node], keywords=[])
        return ast.copy_location(call, node)

    def visit(self, node):
        if isinstance(node, ast.Constant) or isinstance(node, ast.arg):
            if isinstance(node, ast.Constant):
                return self.wrap(node, "Constant")
            return node
        method = getattr(self, "visit_" + type(node).__name__, None)
        if method is not None:
            return method(node)
        kind = type(node).__name__
        node = self.generic_visit(node)
        if not isinstance(node, ast.expr) or isinstance(node, SKIP):
            return node
        if not isinstance(getattr(node, "ctx", ast.Load()), ast.Load):
            return node
        return self.wrap(node, kind)

    def visit_JoinedStr(self, node):
        return self.wrap(node, "JoinedStr")

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return node        # documentation
        return self.generic_visit(node)

    def visit_Call(self, node):
        func = node.func
        frame = isinstance(func, ast.Name) and func.id in FRAME
        self.generic_visit(node)
        if frame:
            node.func = func
        else:
            # evaluated right before the call
            node.keywords.append(ast.keyword(arg=None, value=ast.Call(
                func=ast.Name(id="__begin__", ctx=ast.Load()),
                args=[ast.Constant(value=position(node))], keywords=[])))
        return self.wrap(node, "Call")

    def match_case(self, node):
        node.body = [self.visit(stmt) for stmt in node.body]
        return node

    visit_match_case = match_case

    def visit_GeneratorExp(self, node):
        return self.generic_visit(node)    # represented by another name

    def visit_Raise(self, node):
        return node            # not recorded

    def visit_YieldFrom(self, node):
        return node            # not recorded

    def visit_Assert(self, node):
        return node            # not recorded

    def visit_Delete(self, node):
        return node            # not recorded

    def visit_ExceptHandler(self, node):
        kind, node.type = node.type, None
        self.generic_visit(node)
        node.type = kind
        return node

    def stores(self, targets):
        """Statements that report the names that were just assigned"""
        result = []
        for target in targets:
            for node in ast.walk(target):
                if isinstance(node, ast.Name) and isinstance(
                        node.ctx, ast.Store):
                    result.append(ast.copy_location(ast.Expr(
                        value=self.wrap(load_of(node), "Store")), node))
        return result

    def members(self, targets):
        for target in targets:
            for node in ast.walk(target):
                if isinstance(node, (ast.Attribute, ast.Subscript)):
                    self.skip.add(position(node))

    def visit_Assign(self, node):
        target = node.targets[0]
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(
                target, (ast.Attribute, ast.Subscript)):
            node.value = self.wrap(node.value, "Pending", position(target))
            done = ast.Expr(value=ast.Call(
                func=ast.Name(id="__done__", ctx=ast.Load()),
                args=[ast.Constant(value=position(target))], keywords=[]))
            return [node, ast.copy_location(done, node)]
        else:
            self.members([t for t in node.targets])
        return [node] + self.stores(node.targets)

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        self.members([node.target])
        return [node] + self.stores([node.target])

    def visit_AnnAssign(self, node):
        if node.value is None:
            return node
        node.target = self.visit(node.target)
        node.value = self.visit(node.value)
        return [node] + self.stores([node.target])

    def visit_For(self, node):
        self.generic_visit(node)
        self.members([node.target])
        node.body[:0] = self.stores([node.target])
        return node

    visit_AsyncFor = visit_For

    def visit_With(self, node):
        self.generic_visit(node)
        targets = [item.optional_vars for item in node.items
                   if item.optional_vars is not None]
        self.members(targets)
        node.body[:0] = self.stores(targets)
        return node

    visit_AsyncWith = visit_With

    def visit_Return(self, node):
        self.generic_visit(node)
        if node.value is not None:
            node.value = ast.copy_location(ast.Call(
                func=ast.Name(id="__leave__", ctx=ast.Load()),
                args=[node.value], keywords=[]), node)
        return node

    def visit_FunctionDef(self, node):
        documented = ast.get_docstring(node) is not None
        params = node.args
        returns, node.returns = node.returns, None
        self.generic_visit(node)
        node.returns = returns
        enter = ast.parse("__enter__(%r)" % (position(node),)).body[0]
        for sub in ast.walk(enter):
            if hasattr(sub, "lineno"):
                ast.copy_location(sub, node.body[0])
        args = params.posonlyargs + params.args + params.kwonlyargs
        args += [a for a in (params.vararg, params.kwarg) if a is not None]
        where = 1 if documented else 0
        end = ast.parse("__end__()").body[0]
        for sub in ast.walk(end):
            if hasattr(sub, "lineno"):
                ast.copy_location(sub, node.body[-1])
        params = [ast.Expr(value=self.wrap(load_of(arg), "Param"))
                  for arg in args]
        body = ast.copy_location(ast.Try(
            body=[enter] + params + (node.body[where:] or [ast.Pass()]),
            handlers=[], orelse=[], finalbody=[end]), node.body[0])
        node.body[where:] = [body]
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        params = node.args
        pos = position(node)
        self.generic_visit(node)
        args = params.posonlyargs + params.args + params.kwonlyargs
        args += [a for a in (params.vararg, params.kwarg) if a is not None]
        enter = ast.Call(
            func=ast.Name(id="__enter__", ctx=ast.Load()),
            args=[ast.Constant(value=pos)], keywords=[])
        node.body = ast.Subscript(
            value=ast.Tuple(elts=[enter] + [
                self.wrap(load_of(arg), "Param") for arg in args] + [
                    ast.Call(func=ast.Name(id="__result__", ctx=ast.Load()),
                             args=[node.body], keywords=[])],
                            ctx=ast.Load()),
            slice=ast.Constant(value=-1), ctx=ast.Load())
        ast.copy_location(node.body, node)
        return self.wrap(node, "Lambda")


class Frame(object):
    """Frame of the script"""

    def __init__(self, frame, parent):
        self.frame = frame
        self.parent = parent
        self.block = None
        code = frame.f_code
        flags = (inspect.CO_GENERATOR | inspect.CO_COROUTINE
                 | inspect.CO_ASYNC_GENERATOR)
        self.generator = bool(code.co_flags & flags)
        self.inner = code.co_name in (
            "<genexpr>", "<listcomp>", "<setcomp>", "<dictcomp>")
        self.returned = []     # value of the return statement
        self.result = None     # its representation, at the end
        self.calls = {}        # calls in progress
        self.pending = {}      # stores in progress


class Event(object):
    """Value of an expression"""

    def __init__(self, kind, frame):
        self.kind = kind
        self.frame = frame
        self.repr = None       # calls that raise have no value
        self.items = None


class Trace(object):
    """Values reported by a traced script"""

    def __init__(self, code, path, represent):
        self.path = path
        self.represent = represent
        self.tracing = Tracing()
        self.tree = ast.fix_missing_locations(
            self.tracing.visit(ast.parse(code, path)))
        self.kinds = self.tracing.kinds
        self.events = {}       # position -> events
        self.frames = []
        self.busy = False      # representing values

    def text(self, value):
        self.busy = True
        try:
            return self.represent(value)
        finally:
            self.busy = False

    def frame(self, start):
        while start is not None and start.f_code.co_filename != self.path:
            start = start.f_back
        if start is None:
            return None
        for known in self.frames:
            if known.frame is start:
                return known
        parent = self.frame(start.f_back)
        self.frames.append(Frame(start, parent))
        return self.frames[-1]

    def items(self, value):
        """Keys and items of a collection"""
        if type(value) in (list, tuple):
            pairs = list(enumerate(value))
        elif type(value) in (set, frozenset):
            pairs = [(item, item) for item in value]
        elif type(value) is dict:
            pairs = list(value.items())
        else:
            return None
        return [("[" + self.text(key) + "]", self.text(item))
                for key, item in pairs]

    def names(self):
        def trace(pos, value):
            if not self.busy:
                kind = self.kinds[pos]
                frame = self.frame(sys._getframe(1))
                event = frame.calls.pop(pos, None)
                if kind == "Pending":
                    # stores may be refused
                    event = frame.pending[pos] = Event("Store", frame)
                elif event is None:
                    event = Event(kind, frame)
                    self.events.setdefault(pos, []).append(event)
                event.repr = self.text(value)
                event.items = self.items(value)
            return value

        def done(pos):
            """End of a store"""
            if not self.busy:
                frame = self.frame(sys._getframe(1))
                event = frame.pending.pop(pos)
                self.events.setdefault(pos, []).append(event)

        def begin(pos):
            """Start of a call, that may raise an exception"""
            if not self.busy:
                frame = self.frame(sys._getframe(1))
                event = Event("Call", frame)
                self.events.setdefault(pos, []).append(event)
                frame.calls[pos] = event
            return {}

        def enter(pos):
            if not self.busy:
                self.frame(sys._getframe(1)).block = pos

        def leave(value):
            if not self.busy:
                # finally blocks may change it
                self.frame(sys._getframe(1)).returned = [value]
            return value

        def end():
            """End of a function"""
            if not self.busy:
                frame = self.frame(sys._getframe(1))
                if frame.returned:
                    frame.result = self.text(frame.returned.pop())

        def result(value):
            """Result of a lambda"""
            if not self.busy:
                self.frame(sys._getframe(1)).result = self.text(value)
            return value
        return {"__end__": end, "__result__": result,
                "__trace__": trace, "__enter__": enter, "__leave__": leave,
                "__begin__": begin, "__done__": done}
