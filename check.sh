#!/bin/bash
# check.sh check <property> | thorough <property> | replay <file> | gen <property> <index>
# Builds what is needed from /repo's working tree and runs it.
cd "$(dirname "$0")" || exit 3
export FLV_HOME="$PWD" LC_ALL=C
export FLCKAUTOINIT=NO FLCKROBUSTMODE=NO FLCKDIRPATH=/tmp/flv.unused
unset FLCKNOMAPMODE FLCKFREEUNITMODE FLCKROBUSTCHKCNT FLCKUMASK FLCKFILENAME FLCKFILECNT FLCKOFFETCNT FLCKLOCKERCNT FLCKNMTXCNT FLCKNCONDCNT FLCKWAITERCNT FLCKDBGMODE FLCKDBGFILE
unset LD_PRELOAD ASAN_OPTIONS UBSAN_OPTIONS
umask 022
cmd="$1"; id="$2"
if [ "$cmd" = thorough ]; then export VERIF_TIER=thorough; cmd=check; set -- check "$id"; fi
if [ "$cmd" = replay ]; then id="$(sed -n 's/^property //p' "$2" | head -1)"; fi
case "$id" in
	C16|C20) v=asan ;;
	C19) v=real ;;
	*)   v=sched ;;
esac
exe="$(python3 flv/build.py $v | tail -1)" || exit 3
[ -x "$exe" ] || exit 3
exec "$exe" "$@"
