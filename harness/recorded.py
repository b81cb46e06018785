"""Comparison of recorded representations"""
import re

TOKEN = re.compile("\u00ab\\d+\u00bb")
ADDRESS = re.compile("0x[0-9a-f]+")
INNER = "<lambda>.<locals>."    # generator expressions
# module of classes created by functions that look at the frame of the caller
# (finding T01-caller_module)
MODULE = re.compile(
    r"(noworkflow\.now\.collection\.prov_execution\.collector|__main__)\.")


def clean(text):
    return MODULE.sub("", ADDRESS.sub("", str(text)).replace(INNER, ""))


def differ(sx, left, right):
    """Condition: two recorded representations differ"""
    left, right = clean(left), clean(right)
    if left == right:
        return False
    if not sx.symbolic:
        return True
    values = {str(tok): tok.value for tok in sx.tokens.values()}

    def settle(text):
        """Replace the tokens whose value the path fixed meanwhile"""
        return TOKEN.sub(lambda match: str(sx.repr_of(
            values[match.group()])), text)
    left, right = settle(left), settle(right)
    if left == right:
        return False
    parts1, parts2 = TOKEN.split(left), TOKEN.split(right)
    if parts1 != parts2:
        return True
    return sx.or_(*[
        sx.not_(sx.eq(values[a], values[b]))
        for a, b in zip(TOKEN.findall(left), TOKEN.findall(right))])
