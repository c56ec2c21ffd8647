from rich.text import Text
from .._core import Widget, Message, gap  # noqa: F401


def process_label(label):
    t = Text.from_markup(label) if isinstance(label, str) else label
    return t.split()[0]


class TreeNode:
    def __init__(self, tree, parent, label, data=None, *, expanded=True, allow_expand=True):
        self._tree, self._parent, self._label, self.data = tree, parent, tree.process_label(label), data
        self._children = []
        self.expanded, self.allow_expand = expanded, allow_expand

    @property
    def children(self):
        return tuple(self._children)

    @property
    def parent(self):
        return self._parent

    @property
    def tree(self):
        return self._tree

    @property
    def label(self):
        return self._label

    @label.setter
    def label(self, v):
        self.set_label(v)

    def set_label(self, v):
        self._label = self._tree.process_label(v)

    def add(self, label, data=None, *, before=None, after=None, expand=False, allow_expand=True):
        n = TreeNode(self._tree, self, label, data, expanded=expand, allow_expand=allow_expand)
        self._children.append(n)
        return n

    def add_leaf(self, label, data=None, *, before=None, after=None):
        return self.add(label, data, allow_expand=False)

    def expand(self):
        self.expanded = True
        return self

    def collapse(self):
        self.expanded = False
        return self

    expand_all = expand
    collapse_all = collapse

    def toggle(self):
        self.expanded = not self.expanded
        return self

    def remove(self):
        if self._parent is None:
            raise RuntimeError("Attempt to remove the root node of a Tree.")
        self._parent._children.remove(self)

    def remove_children(self):
        self._children.clear()

    @property
    def is_root(self):
        return self._parent is None


class Tree(Widget):
    def __class_getitem__(cls, item):
        return cls

    def __init__(self, label, data=None, *, name=None, id=None, classes=None, disabled=False):
        super().__init__(name=name, id=id, classes=classes, disabled=disabled)
        self.root = TreeNode(self, None, label, data)
        self.show_root = True

    def process_label(self, label):
        return process_label(label)

    def clear(self):
        self.root = TreeNode(self, None, self.root._label, self.root.data)
        return self

    def reset(self, label, data=None):
        self.root = TreeNode(self, None, label, data)
        return self
