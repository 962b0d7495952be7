SPECIFICATION MSpec
CONSTANTS
  Widths = {1, 3, 6}
  Heights = {1, 2, 5}
INVARIANTS CursorInText WithinText Follows
PROPERTIES KeepsText KeepsCursor
CHECK_DEADLOCK FALSE
