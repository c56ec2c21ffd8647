from .._core import Widget, Message, reactive, gap, AwaitDone  # noqa: F401
from ._tree import Tree, TreeNode  # noqa: F401
from core import HarnessError as _HE


class Header(Widget):
    def __init__(self, show_clock=False, **k):
        super().__init__(**{x: v for x, v in k.items() if x != "icon" and x != "time_format"})


class Footer(Widget):
    def __init__(self, *a, show_command_palette=True, **k):
        k.pop("compact", None)
        super().__init__(*a, **k)


class Static(Widget):
    def __init__(self, content="", **k):
        super().__init__(**k)
        self._content = content

    def update(self, content="", *, layout=True):
        self._content = content

    @property
    def content(self):
        return self._content

    renderable = content


class Label(Static):
    pass


class Button(Widget):
    pass


class TextArea(Widget):
    class Changed(Message):
        def __init__(self, text_area):
            super().__init__()
            self.text_area = text_area

        @property
        def control(self):
            return self.text_area

    class SelectionChanged(Message):
        def __init__(self, selection, text_area):
            super().__init__()
            self.selection, self.text_area = selection, text_area

        @property
        def control(self):
            return self.text_area

    def __init__(self, text="", *, language=None, theme="css", soft_wrap=True, tab_behavior="focus", read_only=False, show_cursor=True, show_line_numbers=False,
                 line_number_start=1, max_checkpoints=50, name=None, id=None, classes=None, disabled=False, tooltip=None, compact=False, highlight_cursor_line=True, placeholder=""):
        super().__init__(name=name, id=id, classes=classes, disabled=disabled)
        self._text = self._norm(text)
        self.language, self.read_only, self.soft_wrap, self.tooltip = language, read_only, soft_wrap, tooltip

    @classmethod
    def code_editor(cls, text="", *, language=None, theme="monokai", soft_wrap=False, tab_behavior="indent", read_only=False, show_cursor=True, show_line_numbers=True,
                    line_number_start=1, max_checkpoints=50, name=None, id=None, classes=None, disabled=False, tooltip=None, compact=False, highlight_cursor_line=True, placeholder=""):
        return cls(text, language=language, theme=theme, soft_wrap=soft_wrap, tab_behavior=tab_behavior, read_only=read_only, show_line_numbers=show_line_numbers,
                   line_number_start=line_number_start, max_checkpoints=max_checkpoints, name=name, id=id, classes=classes, disabled=disabled, tooltip=tooltip)

    @staticmethod
    def _norm(text):
        if not isinstance(text, str):
            raise TypeError(f"text must be str, not {type(text).__name__}")
        return text

    @property
    def text(self):
        return self._text

    @text.setter
    def text(self, value):
        self.load_text(value)

    def load_text(self, text):
        self._text = self._norm(text)
        self.post_message(self.Changed(self))

    def clear(self):
        self._edit("")

    def insert(self, text, location=None, **k):
        if location is not None:
            gap("TextArea.insert at a location")
        self._edit(self._text + text)

    def _edit(self, text):
        """An edit by the user or through the editing methods."""
        self._text = text
        self.post_message(self.Changed(self))


class Input(Widget):
    pass


class Switch(Widget):
    class Changed(Message):
        def __init__(self, switch, value):
            super().__init__()
            self.value, self.switch = value, switch

        @property
        def control(self):
            return self.switch

    value = reactive(False, init=False)

    def __init__(self, value=False, *, animate=True, name=None, id=None, classes=None, disabled=False, tooltip=None):
        super().__init__(name=name, id=id, classes=classes, disabled=disabled)
        if value:
            self.set_reactive(Switch.value, value)
        self.tooltip = tooltip

    def watch_value(self, value):
        self.post_message(self.Changed(self, value))

    def toggle(self):
        self.value = not self.value
        return self

    def action_toggle_switch(self):
        self.toggle()


class RichLog(Widget):
    def __init__(self, *, max_lines=None, min_width=78, wrap=False, highlight=False, markup=False, auto_scroll=True, name=None, id=None, classes=None, disabled=False):
        super().__init__(name=name, id=id, classes=classes, disabled=disabled)
        self.markup = markup
        self._lines = []

    def write(self, content, width=None, expand=False, shrink=True, scroll_end=None, animate=False):
        from rich.text import Text
        if isinstance(content, str):
            t = Text.from_markup(content) if self.markup else Text(content)
        else:
            t = content
        self._lines.append(t)
        return self

    def clear(self):
        self._lines.clear()
        return self

    @property
    def lines(self):
        return list(self._lines)


class Log(Widget):
    pass


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise _HE(f"stub: textual.widgets.{name}")
