#!/bin/bash
# buildlib.sh OUTDIR FLAVOUR... : compiles /repo's sources (current tree) against
# the virtual kernel. Flavours: epoll poll arch thrfb nothr
set -e
OUT=$1; shift
HERE=$(cd "$(dirname "$0")/.." && pwd)
REPO=${VERIF_REPO:-/repo}
BASE="-DDILL_PTHREAD=1 -DDILL_SOCKETS=1 -DDILL_TLS=1 -DHAVE_POSIX_MEMALIGN=1 -DHAVE_MPROTECT=1 -DHAVE_LIBRT=1 -DHAVE_CLOCK_GETTIME=1 -DHAVE_EPOLL_CREATE=1 -DHAVE_EPOLL=1"
LIBF="-O2 -g -fvisibility=hidden -DDILL_EXPORTS -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -w"
# Every source of the library; the core set leaves the protocols out.
NETSRC=" bsock happyeyeballs http ipc ipaddr msock prefix socks5 suffix tcp term tls udp ws "
SRC=
for f in $REPO/*.c; do
  b=$(basename $f .c)
  case "${VERIF_SET:-core}$NETSRC" in core*" $b "*) continue;; esac
  SRC="$SRC $b"
done
LIBS=
case ${VERIF_SET:-core} in core) DRV=core_drv;; *) DRV=net_drv; SRC="dns/dns $SRC"; LIBS="-lssl -lcrypto";; esac
flv() { case $1 in
  epoll) echo "$BASE -DDILL_THREADS=1";;
  poll) echo "$BASE -DDILL_THREADS=1 -DDILL_POLL";;
  arch) echo "$BASE -DDILL_THREADS=1 -DDILL_ARCH_FALLBACK -fno-stack-protector -fno-stack-clash-protection";;
  thrfb) echo "$BASE -DDILL_THREADS=1 -DDILL_THREAD_FALLBACK";;
  nothr) echo "$BASE";;
 esac; }
one() { # flavour source
  local o=$OUT/$1/$(basename $2).o
  # no system calls in these: have the compiler check the sizes of buffers
  local x=; case $2 in prefix|suffix|term|http|ws|socks5|base64|sha1|iol) x="-U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=3";; esac
  gcc $LIBF $x $(flv $1) -include $HERE/harness/pre.h -I$REPO -c $REPO/$2.c -o $o
  case $2 in
    happyeyeballs) objcopy --redefine-syms=$HERE/harness/redef.txt --redefine-sym dill_ipaddr_remotes=vk_ipaddr_remotes $o;;
    socks5) objcopy --redefine-syms=$HERE/harness/redef.txt --redefine-sym dill_ipaddr_remote=vk_ipaddr_remote $o;;
    ipaddr) objcopy --redefine-syms=$HERE/harness/redef.txt --redefine-sym getifaddrs=vk_getifaddrs --redefine-sym freeifaddrs=vk_freeifaddrs $o;;
    dns/dns) objcopy --redefine-syms=$HERE/harness/redef.txt --redefine-sym fopen=vk_fopen --redefine-sym fclose=vk_fclose --redefine-sym time=vk_time --redefine-sym gethostname=vk_gethostname $OUT/$1/dns.o;;
    tls) objcopy --redefine-syms=$HERE/harness/redef.txt --redefine-sym SSL_new=vk_SSL_new --redefine-sym SSL_free=vk_SSL_free --redefine-sym SSL_CTX_new=vk_SSL_CTX_new --redefine-sym SSL_CTX_free=vk_SSL_CTX_free $o;;
    *) objcopy --redefine-syms=$HERE/harness/redef.txt $o;;
  esac
}
export -f one flv; export OUT HERE REPO BASE LIBF DRV LIBS
for f in "$@"; do mkdir -p $OUT/$f; done
for f in "$@"; do for s in $SRC; do echo "$f $s"; done; done | xargs -P 8 -L 1 bash -c 'one $0 $1'
for f in "$@"; do
  echo "$f"
done | xargs -P 8 -I{} bash -c '
  F="-O2 -g -w -fno-stack-protector $(flv {}) -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -I$REPO -I$HERE/harness -DHARNESS=\"$HERE/harness\""
  case {} in arch) F="$F -fno-stack-clash-protection";; esac
  set -e
  gcc $F -c $HERE/harness/vk.c -o $OUT/{}/zz_vk.o
  for d in $DRV; do
    gcc $F -c $HERE/harness/$d.c -o $OUT/{}/zz_$d.o_
    rm -f $OUT/{}/lib.a
    ar rcs $OUT/{}/lib.a $OUT/{}/*.o
    gcc -o $OUT/{}/$d $OUT/{}/zz_$d.o_ $OUT/{}/lib.a -lpthread $LIBS
  done'
