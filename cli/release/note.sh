#!/bin/sh
# Stand-in for a program with effects outside: notes the call only.
printf '%s %s\n' "$(basename "$0")" "$*" >> "$NOTE_LOG"
cat > /dev/null
exit 0
