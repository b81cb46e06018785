"""N20: notebook cleaning keeps every needed cell once and in order"""
from itertools import combinations

from symex.api import harness
from symex.hlib import Record

from noworkflow.now.models.cleaning import merge, history


def symbolic_cells(sx, prefix, amount, types, alphabet, spaces):
    cells = []
    for index in range(amount):
        key = "%s%d" % (prefix, index)
        source = sx.str(key, alphabet, 1, 1)
        if spaces:
            source = sx.choose(key + ".pad", ["", " ", "\n"]) + source
        cells.append({
            "cell_type": sx.choose(key + ".type", types),
            "source": source,
            "metadata": {"tags": [key], "deep": {"set": [1, 2]}},
        })
    return cells


def strip(text):
    return text.strip()


def matchings(sx, originals, history):
    """Maximum monotone pairings of equal code cells"""
    equal = {}
    for oindex, ocell in enumerate(originals):
        for hindex, hcell in enumerate(history):
            equal[oindex, hindex] = (
                ocell["cell_type"] == "code" and hcell["cell_type"] == "code"
                and bool(sx.eq(strip(ocell["source"]),
                               strip(hcell["source"]))))
    for size in range(min(len(originals), len(history)), -1, -1):
        found = []
        for left in combinations(range(len(originals)), size):
            for right in combinations(range(len(history)), size):
                pairs = list(zip(left, right))
                if all(equal[p] for p in pairs):
                    found.append(pairs)
        if found:
            return found
    return [[]]


def positions(cells, items):
    result = []
    for item in items:
        result.append([i for i, c in enumerate(cells) if c is item])
    return result


@harness("N20", params=[
    ("%d,%d,%s,%s%s" % (o, h, "first" if first else "last",
                        "code" if code else "text", ",pad" if pad else ""),
     {"osize": o, "hsize": h, "original_first": first, "merge_code": code,
      "pad": pad},
     {"tiers": ("quick", "thorough") if o + h < 7 else ("thorough",)})
    for o, h, pad in ((0, 2, False), (2, 0, False), (1, 1, True),
                      (2, 2, False), (3, 2, False), (2, 3, False),
                      (3, 3, False), (4, 2, False), (4, 4, False),
                      (2, 2, True))
    for first in (True, False) for code in (True, False)],
    budget=(100, 500))
def merging(sx, osize, hsize, original_first, merge_code, pad):
    """Merge of an original notebook with the cleaned history: symbolic cell
    types and sources"""
    originals = symbolic_cells(sx, "o", osize, ["code", "markdown"], "ab",
                               pad)
    history = symbolic_cells(sx, "h", hsize, ["code"], "ab", pad)
    before = [{"cell_type": "markdown", "source": "# History"}]
    after = [{"cell_type": "code", "source": ""}]
    header = before[0]
    result = merge.merge_json({"cells": originals}, {"cells": history},
                              list(before), after,
                              original_first=original_first,
                              merge_code=merge_code)
    cells = list(result["cells"])
    sx.check(cells and cells[0] is header and cells[-1] is after[0],
             "header comes first and extra cells come last")
    hpos = positions(cells, history)
    opos = positions(cells, originals)
    sx.check(all(len(p) == 1 for p in hpos),
             "history cells appear exactly once", positions=hpos)
    sx.check(all(a < b for a, b in zip(hpos, hpos[1:])),
             "history cells keep their order", positions=hpos)
    kept = []
    for index, cell in enumerate(originals):
        sx.check(len(opos[index]) <= 1, "original cells are not repeated")
        if cell["cell_type"] != "code":
            sx.check(len(opos[index]) == 1,
                     "text cells appear exactly once", positions=opos)
            kept.append(index)
        elif merge_code:
            if opos[index]:
                kept.append(index)
        else:
            sx.check(not opos[index],
                     "code cells of the original are not restored")
    order = [opos[i][0] for i in kept]
    sx.check(order == sorted(order), "original cells keep their order")
    sx.check(len(cells) == 2 + len(history) + len(kept),
             "there are no other cells")

    def fits(pairs):
        unmatched = [i for i in range(len(originals)) if i not in dict(pairs)
                     and (merge_code or
                          originals[i]["cell_type"] != "code")]
        return unmatched == kept and explained_gap(
            pairs, originals, history, opos, hpos, kept, original_first)
    candidates = matchings(sx, originals, history)
    if candidates != [[]]:
        sx.reach("matched cells")
    sx.check(any(fits(pairs) for pairs in candidates),
             "original cells stay between the code cells that surround them",
             opos=opos, hpos=hpos, candidates=candidates)


def explained_gap(pairs, originals, history, opos, hpos, kept,
                  original_first):
    for oindex in kept:
        here = opos[oindex][0]
        for mo, mh in pairs:
            if (mo < oindex) != (hpos[mh][0] < here):
                return False
        low = max([mh for mo, mh in pairs if mo < oindex] or [-1])
        high = min([mh for mo, mh in pairs if mo > oindex] or [len(history)])
        for hindex in range(low + 1, high):
            if (here < hpos[hindex][0]) != original_first:
                return False
    return True


@harness("N20", params=[
    ("%d,%d" % (n, m), {"size1": n, "size2": m},
     {"tiers": ("quick", "thorough") if n + m < 8 else ("thorough",)})
    for n, m in ((1, 3), (2, 2), (3, 3), (4, 3), (4, 4), (5, 4))],
    budget=(100, 500))
def subsequence(sx, size1, size2):
    """Longest common subsequence of two symbolic texts"""
    left = [sx.str("l%d" % i, "abc", 1, 1) for i in range(size1)]
    right = [sx.str("r%d" % i, "abc", 1, 1) for i in range(size2)]
    matches1, matches2 = merge.lcs(left, right)
    pairs = sorted(matches1.items())
    sx.check(pairs == sorted((b, a) for a, b in matches2.items()),
             "both directions have the same pairs")
    for first, second in zip(pairs, pairs[1:]):
        sx.check(first[1] < second[1], "pairs do not cross")
    for one, two in pairs:
        sx.check(sx.eq(left[one], right[two]), "paired elements are equal")
    # no longer common subsequence exists
    size = len(pairs) + 1
    longer = []
    for lpart in combinations(range(size1), size):
        for rpart in combinations(range(size2), size):
            longer.append(sx.and_(*[sx.eq(left[a], right[b])
                                    for a, b in zip(lpart, rpart)]))
    sx.check(sx.not_(sx.or_(*([False] + longer))),
             "no longer subsequence exists", pairs=pairs)
    if len(pairs) > 1:
        sx.reach("two pairs")


@harness("N20", params=[("%d" % n, {"amount": n}) for n in (1, 2)],
         budget=(100, 300))
def clean(sx, amount):
    """Notebook made of the cells of a trial: symbolic contents, results and
    execution numbers"""
    cells = []
    for index in range(amount):
        key = "c%d" % index
        number = sx.choose(key + ".number", [1, 12] if index == 0 else [3])
        content = sx.str(key, "a \n", 0, 2 if amount == 1 else 1)
        results = [Record(repr=sx.choose(key + ".repr", ["None", "7", "''"]))]
        if amount == 1 and sx.choose(key + ".failed", [False, True]):
            results = []
        cells.append(Record(
            id=index, name="cell-%d-%d" % (index, number), number=number,
            evaluations=results, this_block=Record(content=content)))
    header = sx.choose("header", [False, True])
    empty = sx.choose("empty", [False, True])
    notebook = history.create_clean(cells, "unused", "current", header,
                                    empty, False)
    found = list(notebook["cells"])
    if header:
        sx.check(found.pop(0)["cell_type"] == "markdown", "header first")
    if empty:
        last = found.pop()
        sx.check(last["cell_type"] == "code" and last["source"] == "",
                 "empty cell last")
    sx.check(len(found) == amount, "one cell for each executed cell")
    for cell, new in zip(cells, found):
        sx.check(new["cell_type"] == "code", "cells have code")
        sx.check(sx.eq(new["source"], cell.this_block.content.strip()),
                 "cells keep their code and order")
        sx.check(new["execution_count"] == cell.number,
                 "cells keep their numbers")
        expected = [e.repr for e in cell.evaluations if e.repr != "None"]
        sx.check([o["data"]["text/plain"] for o in new["outputs"]] ==
                 expected, "cells keep their results")
