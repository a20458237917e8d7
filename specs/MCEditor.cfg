SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Letters = {"a", " "}
  Lines = {0, 2}
  MaxSteps = 3
  Cmds = {"backward-char", "cua-backward-word", "cua-select-all", "cua-cut", "clink-paste", "delete-char", "kill-line", "backward-kill-word", "kill-whole-line", "yank", "undo", "previous-history", "next-history", "clink-reset-line", "transpose-chars", "accept-line"}
INVARIANTS Good Undoable UndoneAll KillYank KillKill CutPaste SelOnly Returns Accepts Moves Cursor
