"""P37: file-system helpers and the clean-up scripts, inside a scratch directory as user nobody."""
import builtins
import itertools
import os
import pathlib
import shutil
import stat
import sys
from unittest import mock

from hypothesis import strategies as st

import rosstubs  # noqa: F401
from arc_utilities import conversions  # noqa: F401 (imported before the privileges go)
from arc_utilities import filesystem_utils as fs
from vp import REPO, prop

UNPRIVILEGED = True
NAMES = ["a", "b", "c.txt", ".hidden", "d e", "*", "[a]", "-n", "ü", "a.tar.gz", "..x", "~", "%s"]
SCRIPTS = {n: (REPO / "scripts" / n).read_text() for n in ("remove_small_directories.py", "remove_directories_with_few_files.py")}
COMPILED = {n: compile(t, n, "exec") for n, t in SCRIPTS.items()}

leaf = st.one_of(st.tuples(st.just("file"), st.one_of(st.integers(0, 12), st.integers(0, 3000))),
                 st.tuples(st.just("link"), st.sampled_from(["outside", "outside/file", "nowhere", ".", "..", "sibling", "outside/dir"])),
                 st.tuples(st.just("fifo"), st.none()))
files = st.dictionaries(st.sampled_from(NAMES), st.one_of(st.tuples(st.just("file"), st.integers(0, 900)), leaf), max_size=4)
dir1 = st.tuples(st.just("dir"), files)
dir2 = st.tuples(st.just("dir"), st.dictionaries(st.sampled_from(NAMES), st.one_of(leaf, dir1), max_size=4))
trees = st.dictionaries(st.sampled_from(NAMES), st.one_of(leaf, dir1, dir2, dir2), max_size=5)
counter = itertools.count()


class Scratch:
    """A directory with the tree of a case and a second one that links of the tree point into."""

    def __init__(self, tree):
        self.tree = tree

    def __enter__(self):
        self.home = os.path.join(os.getcwd(), "case%d" % next(counter))
        self.outside = os.path.join(self.home, "outside")
        os.makedirs(os.path.join(self.outside, "dir", "deep"))
        for name in ("file", "dir/one", "dir/deep/two"):
            with open(os.path.join(self.outside, name), "w") as f:
                f.write("keep" * 5)
        self.root = os.path.join(self.home, "root")
        os.mkdir(self.root)
        self.build(self.root, self.tree)
        return self

    def build(self, where, tree):
        names = sorted(tree)
        for k, name in enumerate(names):
            kind, what = tree[name]
            path = os.path.join(where, name)
            if kind == "dir":
                os.mkdir(path)
                self.build(path, what)
            elif kind == "file":
                with open(path, "wb") as f:
                    f.write(bytes([k + 65]) * what)
            elif kind == "fifo":
                os.mkfifo(path)
            else:
                target = what
                if what.startswith("outside"):
                    target = os.path.join(self.home, what)
                elif what == "sibling":
                    target = names[(k + 1) % len(names)]
                os.symlink(target, path)

    def __exit__(self, *_):
        os.chdir(os.path.dirname(self.home))
        shutil.rmtree(self.home, ignore_errors=True)

    def snapshot(self):
        found = {}

        def walk(where):
            for e in os.scandir(where):
                mode = e.stat(follow_symlinks=False).st_mode
                if stat.S_ISLNK(mode):
                    found[e.path] = ("link", os.readlink(e.path))
                elif stat.S_ISDIR(mode):
                    found[e.path] = ("dir",)
                    walk(e.path)
                elif stat.S_ISREG(mode):
                    with open(e.path, "rb") as f:
                        found[e.path] = ("file", f.read())
                else:
                    found[e.path] = ("other",)
        walk(self.home)
        return found


def without(snapshot, paths):
    return {p: v for p, v in snapshot.items() if not any(p == d or p.startswith(d + os.sep) for d in paths)}


def difference(got, want):
    missing, extra = sorted(set(want) - set(got)), sorted(set(got) - set(want))
    changed = sorted(p for p in set(got) & set(want) if got[p] != want[p])
    return "missing %r, not removed %r, changed %r" % (missing, extra, changed)


def count(path):
    """Entries below a directory that are no directories; a link is an entry, whatever it points at."""
    n = 0
    for where, dirs, names in os.walk(path):
        n += len(names) + sum(os.path.islink(os.path.join(where, d)) for d in dirs)
    return n


def size(path):
    n = 0
    for where, _, names in os.walk(path):
        n += sum(os.path.getsize(os.path.join(where, f)) for f in names if os.path.isfile(os.path.join(where, f)))
    return n


def has(tree, kind):
    return any(k == kind or (k == "dir" and has(w, kind)) for k, w in tree.values())


def below(scratch, real_only=False):
    """Every directory of the tree (links to directories too unless real_only)."""
    out = []
    for where, dirs, _ in os.walk(scratch.root):
        out += [os.path.join(where, d) for d in dirs if not (real_only and os.path.islink(os.path.join(where, d)))]
    return sorted(out)


spelling = st.sampled_from(["absolute", "relative", "text"])


def spelled(path, how):
    if how == "relative":
        return pathlib.Path(os.path.relpath(path))
    return path if how == "text" else pathlib.Path(path)


@prop(1500, 15000, tree=trees, which=st.integers(0, 9), how=spelling)
def remove_tree(c, tree, which, how):
    with Scratch(tree) as s:
        os.chdir(s.home)
        candidates = [s.root] + below(s)
        victim = candidates[which % len(candidates)]
        want = without(s.snapshot(), [victim])
        fs.rm_tree(spelled(victim, how))
        got = s.snapshot()
        assert got == want, "removing %r: %s" % (os.path.relpath(victim, s.home), difference(got, want))
    c.nontrivial(has(tree, "link") and has(tree, "dir"))
    c.label("links" if has(tree, "link") else "no links")


@prop(1500, 15000, tree=trees, how=spelling)
def sizes_and_counts(c, tree, how):
    with Scratch(tree) as s:
        os.chdir(s.home)
        before = s.snapshot()
        for d in [s.root] + below(s, real_only=True):
            got = fs.directory_size(pathlib.Path(spelled(d, how)))
            assert got == size(d), "the size of %r is %r instead of %r" % (os.path.relpath(d, s.home), got, size(d))
            got = fs.count_files_recursive(spelled(d, how))
            assert got == count(d), "%r files are in %r instead of %r" % (got, os.path.relpath(d, s.home), count(d))
        assert s.snapshot() == before
    c.nontrivial(has(tree, "dir") and has(tree, "file") and size is not None and any(k == "dir" and w for k, w in tree.values()))


@prop(800, 8000, tree=trees, which=st.lists(st.integers(0, 9), max_size=3), lazy=st.booleans())
def subdirectories(c, tree, which, lazy):
    with Scratch(tree) as s:
        all_dirs = [s.root] + below(s, real_only=True)
        given = [pathlib.Path(all_dirs[k % len(all_dirs)]) for k in which]
        got = fs.get_all_subdirs(iter(given) if lazy else given)
        want = [sorted(os.path.join(str(d), n) for n in os.listdir(d) if os.path.isdir(os.path.join(str(d), n))) for d in given]
        at = 0
        for group in want:
            assert sorted(str(p) for p in got[at:at + len(group)]) == group
            at += len(group)
        assert at == len(got), "%d directories instead of %d" % (len(got), at)
    c.nontrivial(sum(map(len, want)) > 1 and len(given) > 1)


answers = st.one_of(st.sampled_from(["", "y", "Y"]), st.sampled_from(["n", "N", "no", "q", "x", "0", "nay"]))


@prop(1500, 15000, tree=trees, mask=st.integers(0, 63), answer=answers, kind=st.sampled_from(["list", "tuple", "generator", "set"]))
def confirmed_removal(c, tree, mask, answer, kind):
    with Scratch(tree) as s:
        tops = sorted(os.path.join(s.root, n) for n in os.listdir(s.root) if os.path.isdir(os.path.join(s.root, n)))
        chosen = [d for k, d in enumerate(tops) if mask >> k & 1]
        paths = [pathlib.Path(d) for d in chosen]
        given = {"list": list, "tuple": tuple, "generator": lambda x: (p for p in x), "set": set}[kind](paths)
        before = s.snapshot()
        asked = []
        with mock.patch.object(builtins, "input", lambda *a: asked.append(s.snapshot()) or answer):
            fs.ask_to_remove_directories(given)
        assert len(asked) == 1, "asked %d times" % len(asked)
        assert asked[0] == before, "something was deleted before the answer: " + difference(asked[0], before)
        want = without(before, chosen) if answer in ("", "y", "Y") else before
        got = s.snapshot()
        assert got == want, "answer %r: %s" % (answer, difference(got, want))
    c.nontrivial(chosen and len(chosen) < len(tops))
    c.label("yes" if answer in ("", "y", "Y") else "no")


def run_script(name, arguments, answer):
    asked = []
    with mock.patch.object(sys, "argv", [name] + arguments), \
            mock.patch.object(builtins, "input", lambda *a: asked.append(1) or answer):
        exec(COMPILED[name], {"__name__": "__main__", "__file__": name})
    return len(asked)


def the_script(c, name, first, second, threshold, text, measure, answer):
    with Scratch(first) as s:
        other = os.path.join(s.home, "more roots")
        roots = [s.root]
        if second is not None:
            os.mkdir(other)
            s.build(other, second)
            roots.append(other)
        before = s.snapshot()
        tops = [os.path.join(r, n) for r in roots for n in os.listdir(r) if os.path.isdir(os.path.join(r, n))]
        small = [d for d in tops if measure(d) < threshold]
        asked = run_script(name, roots + [text], answer)
        assert asked <= 1
        want = without(before, small) if answer in ("", "y", "Y") else before
        got = s.snapshot()
        assert got == want, "threshold %s, answer %r: %s" % (text, answer, difference(got, want))
    c.nontrivial(small and len(small) < len(tops))
    c.label("yes" if answer in ("", "y", "Y") else "no")


many = st.dictionaries(st.sampled_from(NAMES), st.one_of(dir1, dir2, dir2, leaf), min_size=1, max_size=6)


@prop(1200, 12000, first=many, second=st.one_of(st.none(), many), threshold=st.integers(0, 1500), near=st.integers(-2, 2),
      unit=st.sampled_from(["", "b", "k", "K", "kB"]), answer=answers)
def small_directories_script(c, first, second, threshold, near, unit, answer):
    if unit[:1] in ("k", "K"):
        text = "%.3f%s" % (threshold / 1000, unit)
    else:
        text = "%d%s" % (threshold, unit)
    the_script(c, "remove_small_directories.py", first, second, threshold, text, size, answer)


@prop(1200, 12000, first=many, second=st.one_of(st.none(), many), threshold=st.integers(0, 6), answer=answers)
def few_files_script(c, first, second, threshold, answer):
    the_script(c, "remove_directories_with_few_files.py", first, second, threshold, str(threshold), count, answer)


@prop(1200, 12000, tree=trees, name=st.one_of(st.sampled_from(NAMES), st.sampled_from(["new", "new.txt", "x/y", "a/q"])),
      parents=st.booleans(), yes=st.sampled_from(["absent", True, False]), answer=answers)
def make_and_ask(c, tree, name, parents, yes, answer):
    with Scratch(tree) as s:
        path = pathlib.Path(s.root) / name
        before = s.snapshot()
        asked = []
        existed = os.path.exists(path)
        more = {} if yes == "absent" else {"yes": yes}
        with mock.patch.object(builtins, "input", lambda *a: asked.append(1) or answer):
            try:
                got = fs.mkdir_and_ask(path, parents, **more)
            except OSError:
                got = "error"
        after = s.snapshot()
        if existed:
            assert after == before, "something changed: " + difference(after, before)
            assert len(asked) == (0 if yes is True else 1), "asked %d times" % len(asked)
            assert got is (yes is True or answer in ("", "y", "Y")), "%r for the answer %r" % (got, answer)
            c.label("existed")
        else:
            assert not asked, "asked although nothing exists"
            parent = os.path.dirname(path)
            blocked = os.path.lexists(path) or (not os.path.isdir(parent) and not (parents and not os.path.lexists(parent)))
            if got == "error":
                assert after == before
                # the parent may be there now only if it was there before, so this is decided on the tree as it was
                assert blocked or (not os.path.isdir(parent)), "refused to make %r" % name
                c.label("refused")
            else:
                assert got is True and os.path.isdir(path) and not os.path.islink(path)
                real, parent = os.path.realpath(path), os.path.dirname(os.path.realpath(path))
                made = [real] + ([parent] if parent not in before and parent.startswith(s.root + os.sep) else [])
                assert len(made) == 1 or parents, "a parent was made"
                assert after == {**before, **{m: ("dir",) for m in made}}, difference(after, before)
                c.label("made")
    c.nontrivial(existed or "/" in name)


existing = st.lists(st.tuples(st.sampled_from(["file", "dir"]), st.integers(0, 6)), max_size=6)
base_names = st.one_of(st.sampled_from(NAMES), st.sampled_from(["a.b.c.d", "x_v1", "x_v1.txt", "name.", ".a.txt", "..", "v1.2", "a b.c d"]),
                       st.text("ab._v1 ", min_size=1, max_size=6).filter(lambda n: n.strip(".") and n == n.strip()))


@prop(1500, 15000, names=st.lists(base_names.filter(lambda n: n != ".."), min_size=1, max_size=3),
      steps=st.lists(st.tuples(st.integers(0, 2), st.sampled_from(["file", "dir", "ask only"])), min_size=1, max_size=10), relative=st.booleans())
def no_overwrite(c, names, steps, relative):
    """A history of proposals, some of which are then used."""
    with Scratch({}) as s:
        os.chdir(s.home)
        root = pathlib.Path(os.path.relpath(s.root) if relative else s.root)
        used = 0
        for k, what in steps:
            path = root / names[k % len(names)]
            before = s.snapshot()
            existed = os.path.lexists(path)
            got = fs.no_overwrite_path(path)
            assert s.snapshot() == before, "asking changed something"
            assert not os.path.lexists(got), "%r exists" % str(got)
            if not existed:
                assert got == path, "%r instead of the free %r" % (str(got), str(path))
            else:
                assert got.parent == path.parent, "%r is elsewhere" % str(got)
                ending = "".join(path.suffixes)
                start = path.name[:len(path.name) - len(ending)]
                assert got.name.endswith(ending), "%r lost the extension %r" % (got.name, ending)
                assert got.name.startswith(start), "%r lost the name %r" % (got.name, start)
                assert len(got.name) > len(path.name)
                used += 1
            if what == "file":
                got.touch()
            elif what == "dir":
                got.mkdir()
    c.nontrivial(used > 1)


@prop(500, 5000, parts=st.lists(base_names, min_size=1, max_size=3), text=st.text("ab._- ", max_size=4), absolute=st.booleans())
def append_text(c, parts, text, absolute):
    path = pathlib.Path(("/" if absolute else "") + "/".join(parts))
    if path.name in ("", "..") or not (path.name + text).strip("."):
        return
    got = fs.append_str_to_path(path, text)
    assert str(got) == str(path) + text, "%r instead of %r" % (str(got), str(path) + text)
    c.nontrivial(len(parts) > 1 and text)
