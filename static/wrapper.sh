#!/bin/sh
# Notes the compiler calls for poker and what uses it, so that they can be repeated.
case " $* " in
*" --crate-name poker "*) f=poker ;;
*" --crate-name probe "*) f=probe ;;
*) exec "$@" ;;
esac
: > "$POKER_SIM_CALLS/$f.new"
for a in "$@"; do printf '%s\0' "$a" >> "$POKER_SIM_CALLS/$f.new"; done
mv "$POKER_SIM_CALLS/$f.new" "$POKER_SIM_CALLS/$f.argv"
{ env -0; printf 'CARGO_SIM_PWD=%s\0' "$PWD"; } | grep -z -e '^CARGO' -e '^OUT_DIR=' -e '^LD_LIBRARY_PATH=' > "$POKER_SIM_CALLS/$f.env"
exec "$@"
