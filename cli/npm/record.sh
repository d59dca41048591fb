#!/bin/sh
# Stands in for the binary: records how it was called.
{
  printf '%s\0' "$#"
  for a in "$@"; do printf '%s\0' "$a"; done
  printf '%s\0' "$(pwd)"
  printf '%s\0' "${SMD_TEST_ENV-unset}"
} > "$SMD_RECORD.tmp"
mv "$SMD_RECORD.tmp" "$SMD_RECORD"
[ -n "$SMD_SAY" ] && printf '%s' "$SMD_SAY"
[ -n "$SMD_SIGNAL" ] && kill -"$SMD_SIGNAL" $$
exit "${SMD_EXIT:-0}"
