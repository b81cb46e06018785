"""Relational database with symbolic contents

Statements built by the real code with SQLAlchemy are interpreted over rows
whose values can be symbolic.  Comparisons fork the path where needed.  In
concrete runs the same harness uses a real SQLite database.
"""
from __future__ import annotations

import operator as op
import re

from .models import to_int
from .core import (Sym, SymBool, SymNum, SymStr, cur, deep_eq, isinstance_,
                   not_, and_, or_, mk_bool, deep_sym)


class Unsupported(Exception):
    """Statement that the interpreter does not know"""


def truth(value):
    """SQL condition as python bool (forks); NULL is false"""
    if value is None:
        return False
    return bool(value)


def sql_eq(left, right):
    if left is None or right is None:
        return None
    ltext, rtext = isinstance_(left, (str, SymStr)), isinstance_(
        right, (str, SymStr))
    if ltext != rtext:
        return False
    return deep_eq(left, right)


def affinity(expr, left, right):
    """Numeric columns are compared with texts as numbers when they can be"""
    from sqlalchemy import Integer, Float

    def numeric(part):
        return getattr(part, "__visit_name__", "") == "column" and isinstance(
            part.type, (Integer, Float))

    def convert(value):
        if isinstance_(value, SymStr):
            if bool(value.isdigit()):
                return to_int(value)
        elif isinstance_(value, str):
            try:
                return int(value)
            except ValueError:
                pass
        return value
    if numeric(expr.left):
        right = convert(right)
    if numeric(expr.right):
        left = convert(left)
    return left, right


def sql_not(value):
    return None if value is None else not_(value)


def sql_like(value, pattern):
    if value is None or pattern is None:
        return None
    if hasattr(value, "strftime"):  # sqlite stores moments as text
        value = value.strftime("%Y-%m-%d %H:%M:%S.%f")
    if isinstance_(pattern, SymStr):
        pattern = cur().concretize(pattern)
    parts = pattern.split("%")
    if "_" in pattern:
        pass

    def fits(text, offset, part):
        if offset + len(part) > len(text):
            return False
        for index, char in enumerate(part):
            if char == "_":
                continue
            other = text[offset + index]
            if not bool(deep_eq(lower(other), lower(char))):
                return False
        return True

    def search(text, offset, index):
        if index == len(parts):
            return offset == len(text)
        part = parts[index]
        if index == 0:
            return fits(text, offset, part) and search(
                text, offset + len(part), 1)
        if index == len(parts) - 1:
            start = len(text) - len(part)
            return start >= offset and fits(text, start, part)
        for start in range(offset, len(text) + 1):
            if fits(text, start, part) and search(
                    text, start + len(part), index + 1):
                return True
        return False
    if len(parts) == 1:
        return len(value) == len(pattern) and fits(value, 0, pattern)
    return search(value, 0, 0)


def lower(char):
    if isinstance_(char, SymStr):
        return char.lower()
    return char.lower()


PLAIN = (int, str)      # values that can be compared at once


class Row(object):
    """Row of a table"""

    __slots__ = ("table", "values", "proxy", "deleted")

    def __init__(self, table, values):
        self.table = table
        self.values = values
        self.proxy = None
        self.deleted = False


class _Mapper(object):

    def __init__(self, table):
        self.table = table

    def primary_key_from_instance(self, obj):
        row = obj._sx_row
        return [row.values[c.name] for c in self.table.primary_key.columns]


class RowProxy(object):
    """Stands for the mapped instance of a row"""

    def __init__(self, db, model, row):
        object.__setattr__(self, "_sx_db", db)
        object.__setattr__(self, "_sx_model", model)
        object.__setattr__(self, "_sx_row", row)
        object.__setattr__(self, "_sx_cache", {})

    @property
    def __class__(self):
        return self._sx_model

    @property
    def __mapper__(self):
        return _Mapper(self._sx_row.table)

    def __getattr__(self, name):
        row = self._sx_row
        if name in row.values:
            return row.values[name]
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        model = self._sx_model
        relation = model.__mapper__.relationships.get(name)
        if relation is not None:
            return self._sx_db.relation(self, relation)
        for cls in model.__mro__:
            if name in cls.__dict__:
                attr = cls.__dict__[name]
                if isinstance(attr, property):
                    return attr.fget(self)
                if callable(attr) and hasattr(attr, "__get__"):
                    return attr.__get__(self, model)
                return attr
        raise AttributeError(name)

    def __setattr__(self, name, value):
        row = self._sx_row
        if name in row.table.columns:
            row.values[name] = value
        else:
            object.__setattr__(self, name, value)

    def __eq__(self, other):
        return self is other

    def __hash__(self):
        return id(self)


class ResultRow(tuple):

    def __new__(cls, values, names):
        self = tuple.__new__(cls, values)
        self._names = names
        return self

    def __getattr__(self, name):
        if name in self._names:
            return self[self._names.index(name)]
        raise AttributeError(name)

    def keys(self):
        return self._names


class Result(object):

    def __init__(self, rows, rowcount=None, lastrowid=None):
        self.rows = rows
        self.rowcount = len(rows) if rowcount is None else rowcount
        self.lastrowid = lastrowid
        self.pos = 0

    def __iter__(self):
        while self.pos < len(self.rows):
            self.pos += 1
            yield self.rows[self.pos - 1]

    def fetchall(self):
        result, self.pos = self.rows[self.pos:], len(self.rows)
        return result
    all = fetchall

    def fetchone(self):
        if self.pos < len(self.rows):
            self.pos += 1
            return self.rows[self.pos - 1]
        return None
    first = fetchone

    def scalar(self):
        row = self.fetchone()
        return row[0] if row is not None else None

    def close(self):
        pass


class Database(object):
    """In-memory database"""

    def __init__(self, base):
        self.base = base
        self.tables = {}
        self.sequence = {}
        self.models = {}
        for mapper in base.registry.mappers:
            self.models[mapper.local_table.name] = mapper.class_
        self.log = []

    # -- rows
    def rows(self, table):
        return self.tables.setdefault(table.name, [])

    def insert(self, table, values, replace=False):
        full = {}
        for column in table.columns:
            value = values.get(column.name)
            if value is None and column.default is not None and \
                    column.name not in values:
                default = column.default
                value = default.arg
                if callable(value):
                    value = value(None)
            full[column.name] = value
        for name in values:
            if name not in full:
                raise Unsupported("Unconsumed column names: " + name)
        keys = list(table.primary_key.columns)
        if len(keys) == 1 and full[keys[0].name] is None:
            last = self.sequence.get(table.name, 0)
            self.sequence[table.name] = full[keys[0].name] = last + 1
        elif len(keys) == 1 and isinstance_(full[keys[0].name], int):
            self.sequence[table.name] = max(
                self.sequence.get(table.name, 0), full[keys[0].name])
        uniques = [[c.name for c in keys]] if keys else []
        for column in table.columns:
            if column.unique:
                uniques.append([column.name])
        rows = self.rows(table)
        for names in uniques:
            key = [full[n] for n in names]
            plain = all(type(part) in PLAIN for part in key)
            for row in list(rows):
                if plain:
                    other = [row.values[n] for n in names]
                    if key != other and all(
                            type(part) in PLAIN for part in other):
                        continue
                same = and_(*[
                    sql_eq(row.values[n], full[n]) or False for n in names])
                if truth(same):
                    if not replace:
                        from sqlalchemy.exc import IntegrityError
                        raise IntegrityError(
                            "UNIQUE constraint failed: " + table.name, {},
                            Exception("unique"))
                    rows.remove(row)
        row = Row(table, full)
        rows.append(row)
        pk = full[keys[0].name] if keys else None
        return row, pk

    def proxy(self, model, row):
        if row is None:
            return None
        if row.proxy is None:
            row.proxy = RowProxy(self, model, row)
        return row.proxy

    # -- relationships
    def relation(self, obj, prop):
        strategy = prop._lazy_strategy
        model = prop.mapper.class_
        table = prop.mapper.local_table
        params = {}
        for bind, column in strategy._bind_to_col.items():
            params[bind] = obj._sx_row.values[column.name]
        where = strategy._lazywhere
        order = list(prop.order_by or [])

        def run(extra=(), extra_order=(), limit=None):
            found = []
            tables = [table]
            if prop.secondary is not None:
                tables.append(prop.secondary)
            for env in self.product(tables):
                cond = self.eval(where, env, params)
                if not truth(cond):
                    continue
                if all(truth(self.eval(c, env, params)) for c in extra):
                    found.append(env)
            found = self.sort(found, order + list(extra_order), params)
            rows = [env[table.name] for env in found]
            result = []
            for row in rows:
                if not any(row is other for other in result):
                    result.append(row)
            return [self.proxy(model, r) for r in result][:limit]
        if prop.lazy == "dynamic":
            return DynamicQuery(run)
        result = run()
        if prop.uselist:
            return result
        return result[0] if result else None

    # -- evaluation
    def product(self, tables):
        envs = [{}]
        for table in tables:
            envs = [dict(env, **{table.name: row}) for env in envs
                    for row in list(self.rows(table))]
        return envs

    def column(self, expr, env):
        table = expr.table
        name = table.name
        if name not in env:
            raise Unsupported("table %s not in scope" % name)
        row = env[name]
        if row is None:
            return None
        return row.values[expr.name]

    def eval(self, expr, env, params):
        kind = getattr(expr, "__visit_name__", None)
        if kind == "column":
            return self.column(expr, env)
        if kind == "bindparam":
            if expr.key in params:
                return params[expr.key]
            if expr.callable is not None:
                return expr.callable()
            return expr.value
        if kind == "binary":
            return self.binary(expr, env, params)
        if kind == "clauselist":
            values = [self.eval(c, env, params) for c in expr.clauses]
            if expr.operator is op.and_:
                if any(v is False for v in values):
                    return False
                if any(v is None for v in values):
                    # unknown or false: never true
                    return None
                return and_(*values) if values else True
            if expr.operator is op.or_:
                known = [v for v in values if v is not None]
                res = or_(*known) if known else False
                if len(known) < len(values) and res is False:
                    return None
                return res
            return values
        if kind == "unary":
            name = getattr(expr.operator, "__name__", "")
            value = self.eval(expr.element, env, params)
            if name == "inv" or name == "not_":
                return sql_not(value)
            if name == "exists":
                return value
            raise Unsupported("unary " + name)
        if kind in ("grouping", "label", "annotated", "type_coerce", "cast"):
            return self.eval(expr.element if hasattr(expr, "element")
                             else expr.clause, env, params)
        if kind == "true":
            return True
        if kind == "false":
            return False
        if kind == "null":
            return None
        if kind in ("select", "scalar_select", "grouped_select",
                    "select_statement_grouping"):
            stmt = getattr(expr, "element", expr)
            rows = self.select(stmt, params, env)
            return rows[0][0] if rows else None
        if kind == "exists":
            stmt = expr.element
            return bool(self.select(stmt, params, env))
        if hasattr(expr, "element"):
            return self.eval(expr.element, env, params)
        raise Unsupported("expression %s %r" % (kind, type(expr)))

    def in_values(self, expr, env, params):
        kind = getattr(expr, "__visit_name__", None)
        if kind == "bindparam":
            value = self.eval(expr, env, params)
            return list(value)
        if kind == "clauselist":
            return [self.eval(c, env, params) for c in expr.clauses]
        stmt = expr
        while not hasattr(stmt, "whereclause") and hasattr(stmt, "element"):
            stmt = stmt.element
        if hasattr(stmt, "whereclause"):
            return [row[0] for row in self.select(stmt, params, env)]
        if hasattr(expr, "element"):
            return self.in_values(expr.element, env, params)
        raise Unsupported("in %r" % type(expr))

    def binary(self, expr, env, params):
        name = expr.operator.__name__
        left = self.eval(expr.left, env, params)
        if name in ("in_op", "not_in_op"):
            values = self.in_values(expr.right, env, params)
            if left is None:
                return None
            result = or_(*([False] + [
                x for x in (sql_eq(left, v) for v in values)
                if x is not None]))
            return result if name == "in_op" else not_(result)
        right = self.eval(expr.right, env, params)
        if name == "is_":
            if right is None:
                return left is None
            return sql_eq(left, right) or False
        if name in ("is_not", "isnot"):
            if right is None:
                return left is not None
            return not_(sql_eq(left, right) or False)
        if name in ("eq", "ne"):
            left, right = affinity(expr, left, right)
            result = sql_eq(left, right)
            return result if name == "eq" else sql_not(result)
        if name == "like_op":
            return sql_like(left, right)
        if name == "not_like_op":
            return sql_not(sql_like(left, right))
        if left is None or right is None:
            return None
        if name == "startswith_op":
            return sql_like(left, right + "%")
        if name in ("lt", "le", "gt", "ge"):
            return getattr(op, name)(left, right)
        if name in ("add", "sub", "mul", "concat_op"):
            return getattr(op, "add" if name == "concat_op" else name)(
                left, right)
        raise Unsupported("operator " + name)

    def sort(self, envs, order, params):
        """Stable insertion sort (forks on comparisons)"""
        if not order:
            return envs
        keys = []
        for clause in order:
            name = getattr(getattr(clause, "modifier", None), "__name__", "")
            desc = name == "desc_op"
            expr = clause.element if name in ("desc_op", "asc_op") else clause
            keys.append((expr, desc))
        result = []
        for env in envs:
            values = [(self.eval(e, env, params), d) for e, d in keys]
            position = len(result)
            while position and self.before(values, result[position - 1][0]):
                position -= 1
            result.insert(position, (values, env))
        return [env for _, env in result]

    def before(self, first, second):
        for (left, desc), (right, _) in zip(first, second):
            if left is None and right is None:
                continue
            if left is None:
                return not desc
            if right is None:
                return desc
            if desc:
                left, right = right, left
            if truth(left < right):
                return True
            if truth(right < left):
                return False
        return False

    # -- select
    def froms(self, item, params, outer):
        """Environments of a FROM element"""
        kind = getattr(item, "__visit_name__", None)
        if kind == "table":
            return [{item.name: row} for row in list(self.rows(item))]
        if kind == "join":
            result = []
            rights = self.froms(item.right, params, outer)
            right_names = self.names(item.right)
            for left in self.froms(item.left, params, outer):
                matched = False
                for right in rights:
                    env = dict(left, **right)
                    if item.onclause is None or truth(self.eval(
                            item.onclause, dict(outer, **env), params)):
                        matched = True
                        result.append(env)
                if not matched and item.isouter:
                    result.append(dict(left, **{n: None for n in right_names}))
            return result
        if hasattr(item, "element"):
            return self.froms(item.element, params, outer)
        raise Unsupported("from %r" % kind)

    def names(self, item):
        kind = getattr(item, "__visit_name__", None)
        if kind == "table":
            return [item.name]
        if kind == "join":
            return self.names(item.left) + self.names(item.right)
        return self.names(item.element)

    def select(self, stmt, params, outer=None):
        """Rows (tuples of values) of a select"""
        outer = outer or {}
        envs = [dict(outer)]
        froms = stmt.get_final_froms()
        for item in froms:
            names = self.names(item)
            if outer and len(froms) > 1 and all(n in outer for n in names):
                # implicit correlation
                continue
            envs = [dict(env, **new) for env in envs
                    for new in self.froms(item, params, outer)]
        where = stmt.whereclause
        if where is not None:
            envs = [env for env in envs
                    if truth(self.eval(where, env, params))]
        envs = self.sort(envs, list(stmt._order_by_clauses), params)
        columns = list(stmt.selected_columns)
        aggregate = [self.aggregate(c) for c in columns]
        if any(aggregate):
            rows = [tuple(self.reduce(agg, col, envs, params)
                          for agg, col in zip(aggregate, columns))]
        else:
            rows = [tuple(self.eval(c, env, params) for c in columns)
                    for env in envs]
            if stmt._distinct or any(self.is_distinct(c) for c in columns):
                rows = self.unique(rows)
        names = [getattr(c, "key", None) or getattr(c, "name", None)
                 for c in columns]
        limit = stmt._limit if stmt._limit_clause is not None else None
        return [ResultRow(row, names) for row in rows[:limit]]

    def is_distinct(self, column):
        return getattr(getattr(column, "operator", None), "__name__",
                       "") == "distinct_op"

    def unique(self, rows):
        result = []
        for row in rows:
            if not any(truth(deep_eq(row, other)) for other in result):
                result.append(row)
        return result

    def aggregate(self, column):
        column = getattr(column, "element", column)
        name = getattr(column, "name", None)
        if getattr(column, "__visit_name__", "") in ("function", "max",
                                                     "count", "min", "sum"):
            return str(name).lower()
        return None

    def reduce(self, name, column, envs, params):
        if name is None:
            return self.eval(column, envs[-1], params) if envs else None
        column = getattr(column, "element", column)
        args = list(column.clauses)
        if name == "count":
            if not args or getattr(args[0], "text", "") == "*":
                return len(envs)
            return sum(1 for env in envs
                       if self.eval(args[0], env, params) is not None)
        values = [self.eval(args[0], env, params) for env in envs]
        values = [v for v in values if v is not None]
        if name in ("max", "min"):
            best = None
            for value in values:
                if best is None or truth(
                        value > best if name == "max" else value < best):
                    best = value
            return best
        raise Unsupported("function " + name)

    # -- statements
    def execute(self, stmt, *multi):
        if isinstance_(stmt, str):
            return self.execute_text(stmt, multi)
        visit = stmt.__visit_name__
        if visit == "select":
            params = {}
            for item in multi:
                params.update(item or {})
            return Result(self.select(stmt, params))
        if visit == "insert":
            replace = any("REPLACE" in str(p[0]).upper()
                          for p in stmt._prefixes)
            rows = []
            for item in multi:
                if isinstance_(item, (list, tuple)):
                    rows.extend(item)
                elif item is not None:
                    rows.append(item)
            if not rows:
                values = {}
                for column, value in (stmt._values or {}).items():
                    values[column.name] = self.eval(value, {}, {})
                rows = [values]
            pk = None
            keys = set(rows[0].keys())
            names = [c.name for c in stmt.table.columns if c.name in keys]
            for values in rows:     # others names are ignored
                _, pk = self.insert(stmt.table, {
                    name: values[name] for name in names}, replace)
            return Result([], len(rows), pk)
        if visit in ("update", "delete"):
            table = stmt.table
            count = 0
            for row in list(self.rows(table)):
                env = {table.name: row}
                where = stmt.whereclause
                if where is not None and not truth(self.eval(where, env, {})):
                    continue
                count += 1
                if visit == "delete":
                    self.rows(table).remove(row)
                else:
                    for column, value in stmt._values.items():
                        name = getattr(column, "name", column)
                        row.values[name] = self.eval(value, env, {}) \
                            if hasattr(value, "__visit_name__") else value
            return Result([], count)
        raise Unsupported("statement " + visit)

    def execute_text(self, text, multi):
        """Statements that the code turned into text remember their origin"""
        statement = getattr(text, "statement", None)
        if statement is None:
            raise Unsupported("text statement: " + str(text)[:200])
        return self.execute(statement, *multi)


class SqlText(str):
    """Text of a statement"""

    def __new__(cls, text, statement):
        self = str.__new__(cls, text)
        self.statement = statement
        return self


def remember_texts(sx):
    """str(statement) keeps the statement until the end of the path"""
    from sqlalchemy.sql.elements import ClauseElement
    old = ClauseElement.__str__

    def __str__(self):
        return SqlText(old(self), self)
    ClauseElement.__str__ = __str__

    def undo():
        ClauseElement.__str__ = old
    sx.cleanup(undo)


class DynamicQuery(object):
    """Relationship with lazy=dynamic"""

    def __init__(self, run, where=(), order=(), limit_=None):
        self.run = run
        self.where = tuple(where)
        self.order = tuple(order)
        self._limit = limit_

    def filter(self, *conds):
        return DynamicQuery(self.run, self.where + conds, self.order,
                            self._limit)

    def order_by(self, *order):
        return DynamicQuery(self.run, self.where, self.order + order,
                            self._limit)

    def limit(self, amount):
        return DynamicQuery(self.run, self.where, self.order, amount)

    def all(self):
        return self.run(self.where, self.order, self._limit)

    def __iter__(self):
        return iter(self.all())

    def first(self):
        found = self.all()
        return found[0] if found else None

    def count(self):
        return len(self.all())

    def __getitem__(self, index):
        return self.all()[index]


class SxQuery(object):
    """ORM query: built by SQLAlchemy, answered by Database"""

    def __init__(self, session, query, entities):
        self.session = session
        self.real = query
        self.entities = entities

    def _wrap(self, query):
        return SxQuery(self.session, query, self.entities)

    def __getattr__(self, name):
        if name in ("filter", "filter_by", "order_by", "limit", "join",
                    "outerjoin", "distinct", "options", "offset", "where",
                    "select_from", "group_by", "with_entities",
                    "execution_options"):
            def method(*args, **kwargs):
                return self._wrap(getattr(self.real, name)(*args, **kwargs))
            return method
        if name in ("statement", "subquery", "exists", "whereclause"):
            return getattr(self.real, name)
        raise AttributeError(name)

    def _envs(self):
        db = self.session.db
        stmt = self.real.enable_eagerloads(False)
        core = stmt.statement
        froms = core.get_final_froms()
        envs = [{}]
        for item in froms:
            envs = [dict(env, **new) for env in envs
                    for new in db.froms(item, {}, {})]
        where = core.whereclause
        if where is not None:
            envs = [e for e in envs if truth(db.eval(where, e, {}))]
        envs = db.sort(envs, list(core._order_by_clauses), {})
        return core, envs

    def all(self):
        db = self.session.db
        core, envs = self._envs()
        rows = []
        for env in envs:
            row = []
            for entity in self.entities:
                if isinstance(entity, type):
                    table = entity.__table__
                    row.append(db.proxy(entity, env[table.name]))
                else:
                    expr = entity
                    if hasattr(expr, "__clause_element__"):
                        expr = expr.__clause_element__()
                    if db.aggregate(expr):
                        return [(db.reduce(db.aggregate(expr), expr, envs,
                                           {}),)]
                    row.append(db.eval(
                        expr.element if db.is_distinct(expr) else expr,
                        env, {}))
            rows.append(tuple(row))
        single = len(self.entities) == 1 and isinstance(
            self.entities[0], type)
        if single:
            result = []
            for (item,) in rows:
                if not any(item is other for other in result):
                    result.append(item)
            rows = result
        elif core._distinct or any(
                db.is_distinct(getattr(e, "__clause_element__", lambda: e)())
                for e in self.entities if not isinstance(e, type)):
            rows = db.unique(rows)
        if not single:
            names = [getattr(e, "key", None) for e in self.entities]
            rows = [ResultRow(row, names) for row in rows]
        limit = core._limit if core._limit_clause is not None else None
        offset = core._offset if core._offset_clause is not None else 0
        rows = rows[offset:]
        return rows[:limit]

    def __iter__(self):
        return iter(self.all())

    def first(self):
        found = self.all()
        return found[0] if found else None

    def one(self):
        found = self.all()
        if len(found) != 1:
            from sqlalchemy.orm.exc import NoResultFound, MultipleResultsFound
            raise (MultipleResultsFound if found else NoResultFound)()
        return found[0]

    def one_or_none(self):
        return self.one() if self.all() else None

    def scalar(self):
        row = self.first()
        return row[0] if row is not None else None

    def count(self):
        return len(self._envs()[1])

    def get(self, ident):
        db = self.session.db
        model = self.entities[0]
        table = model.__table__
        if not isinstance_(ident, (tuple, list)):
            ident = (ident,)
        keys = [c.name for c in table.primary_key.columns]
        for row in list(db.rows(table)):
            if all(truth(sql_eq(row.values[k], v))
                   for k, v in zip(keys, ident)):
                return db.proxy(model, row)
        return None

    def delete(self, synchronize_session=None):
        db = self.session.db
        table = self.entities[0].__table__
        _, envs = self._envs()
        for env in envs:
            db.rows(table).remove(env[table.name])
        return len(envs)

    def update(self, values, synchronize_session=None):
        _, envs = self._envs()
        table = self.entities[0].__table__
        for env in envs:
            for key, value in values.items():
                env[table.name].values[getattr(key, "key", key)] = value
        return len(envs)


class Session(object):

    def __init__(self, db):
        self.db = db
        from sqlalchemy.orm import Session as RealSession
        self._builder = RealSession()

    def query(self, *entities):
        return SxQuery(self, self._builder.query(*entities), entities)

    def execute(self, stmt, *params, **kwargs):
        return self.db.execute(stmt, *params)

    def add(self, obj):
        table = obj.__table__
        values = {}
        state = obj.__dict__
        for column in table.columns:
            if column.name in state:
                values[column.name] = state[column.name]
        self.db.insert(table, values)

    def add_all(self, objs):
        for obj in objs:
            self.add(obj)

    def delete(self, obj):
        self.db.rows(obj._sx_row.table).remove(obj._sx_row)

    def nothing(self, *args, **kwargs):
        return None
    commit = flush = rollback = close = expire_all = remove = nothing
    refresh = expire = expunge_all = nothing

    def __call__(self):
        return self

    def connection(self):
        return self

    connect = connection

    def begin(self):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False


class Engine(object):

    def __init__(self, session):
        self.session = session

    def connect(self):
        return self.session

    def begin(self):
        return self.session

    def execute(self, *args):
        return self.session.execute(*args)


class SymDelta(object):
    """Difference of symbolic moments"""

    def __init__(self, seconds):
        self.seconds = seconds

    def total_seconds(self):
        return self.seconds

    def __str__(self):
        return "delta<%s>" % (self.seconds,)
    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def __bool__(self):
        return bool(self.seconds != 0)


class SymTime(object):
    """Moment with a symbolic amount of seconds"""

    def __init__(self, seconds):
        self.seconds = seconds

    def _other(self, other):
        from datetime import datetime
        if isinstance_(other, SymTime):
            return other.seconds
        if isinstance_(other, datetime):
            return int((other - EPOCH).total_seconds())
        return None

    def __lt__(self, other):
        return self.seconds < self._other(other)

    def __gt__(self, other):
        return self.seconds > self._other(other)

    def __le__(self, other):
        return self.seconds <= self._other(other)

    def __ge__(self, other):
        return self.seconds >= self._other(other)

    def __eq__(self, other):
        other = self._other(other)
        if other is None:
            return False
        return self.seconds == other

    def __ne__(self, other):
        return not_(self.__eq__(other))

    def __hash__(self):
        return hash(self.concrete())

    def concrete(self):
        from datetime import timedelta
        return EPOCH + timedelta(seconds=cur().concretize(self.seconds))

    def __sub__(self, other):
        other = self._other(other)
        if other is None:
            return NotImplemented
        return SymDelta(self.seconds - other)

    def __rsub__(self, other):
        return SymDelta(self._other(other) - self.seconds)

    def __str__(self):
        if cur().repr_mode == "token":
            return "time<%s>" % (self.seconds,)
        return str(self.concrete())

    def __format__(self, spec):
        if cur().repr_mode == "token":
            return str(self)
        return format(self.concrete(), spec)

    def __repr__(self):
        if cur().repr_mode == "token":
            return str(self)
        return repr(self.concrete())

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return getattr(self.concrete(), name)


from datetime import datetime as _datetime
EPOCH = _datetime(2020, 1, 1)


class Handle(object):
    """Database of a harness, in both modes"""

    def __init__(self, sx):
        from noworkflow.now.persistence import relational
        self.sx = sx
        self.relational = relational
        if sx.symbolic:
            self.db = Database(relational.base)
            self.session = Session(self.db)
            old = (relational.__dict__.get("engine"), type(relational))

            class Patched(type(relational)):
                @property
                def session(this):
                    return self.session

                def make_session(this):
                    return self.session

                def query(this, text):
                    return self.session.execute(text).fetchall()
            relational.__class__ = Patched
            remember_texts(sx)
            relational.engine = Engine(self.session)

            def undo():
                relational.__class__ = old[1]
                relational.engine = old[0]
            sx.cleanup(undo)
        else:
            from .hlib import project, erase_tables
            project("sequential_plain")
            erase_tables()
            from sqlalchemy import text
            try:
                relational.session.execute(
                    text("delete from sqlite_sequence"))
                relational.session.commit()
            except Exception:
                relational.session.rollback()

    def insert(self, cls, **values):
        """Insert row in the table of a model"""
        table = cls.__table__
        if self.sx.symbolic:
            _, pk = self.db.insert(table, values)
            return pk
        session = self.relational.session
        result = session.execute(table.insert(), values)
        session.commit()
        session.expire_all()
        return result.lastrowid

    def rows(self, cls):
        """All rows as dicts"""
        table = cls.__table__
        if self.sx.symbolic:
            return [dict(row.values) for row in self.db.rows(table)]
        session = self.relational.make_session()
        rows = session.execute(table.select()).fetchall()
        names = [c.name for c in table.columns]
        result = [dict(zip(names, row)) for row in rows]
        session.close()
        return result

    def time(self, name, low, high):
        """Symbolic moment"""
        seconds = self.sx.int(name, low, high)
        return self.at(seconds)

    def at(self, seconds):
        from datetime import timedelta
        if self.sx.symbolic and isinstance_(seconds, Sym):
            return SymTime(seconds)
        return EPOCH + timedelta(seconds=seconds)
