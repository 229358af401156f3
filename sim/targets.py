# component binaries: target(name, instrumented sources, flags)
target('artolc', [H + 'artolc.cc'], ['-I' + R + '/ARTOLC'], 'A01 A02 A03')
target('optiql', [H + 'artolc.cc', R + '/OptiQL/Tree.cpp'], ['-DOPTIQL', '-DOMCS_LOCK', '-DIS_CONTEXTFUL', '-I' + R + '/OptiQL'], 'Q01 Q02')
target('latch', [H + 'latch.cc'] + [(H + 'latch_impl.cc', ['-DV=%d' % v]) for v in range(1, 10)] + [(H + 'latch_impl.cc', ['-DV=%d' % v, '-DBLATCH="' + R + '/BLinkTree/latch.h"']) for v in (10, 11)], ['-I' + R + '/OptiQL'], 'Q03 Q04 L03')
target('btree', [H + 'btree.cc'], ['-I' + R + '/BTreeOLC'], 'T01 T02')
target('blink', [H + 'blink.cc'], ['-I' + R + '/BLinkTree'], 'L01 L02')
WH = R + '/wormhole/'
target('worm', [H + 'worm.cc', H + 'wh_slab.cc', WH + 'wh.c', WH + 'kv.c', WH + 'lib.c'], ['-I' + R + '/wormhole', '-DWH_SIM_CONFIG="' + H + 'wh_sim_config.h"', '-D_GNU_SOURCE'], 'W01 W02 W03 W06 W07',
  link=['-lm'] + ['-Wl,--wrap=slab_' + x for x in 'create alloc_unsafe alloc_safe free_unsafe free_safe destroy'.split()])
WF = ['-I' + R + '/wormhole', '-D_GNU_SOURCE']; WL = ['-lm']
target('wlib', [H + 'wlib.cc', WH + 'lib.c'], WF, 'W04 W08', link=WL)
target('wlock', [H + 'latch.cc', H + 'latch_wh.cc', WH + 'lib.c'], WF, 'W05', link=WL)
HT = R + '/HOT'
target('hot', [H + 'hot.cc'], ['-I' + HT, '-I' + HT + '/include'], 'H01 H02 H03')
MT = R + '/MassTree/'
MF = ['-I' + R + '/MassTree', '-include', MT + 'config.h', '-DENABLE_ASSERTIONS=1', '-DENABLE_INVARIANTS=1', '-DENABLE_PRECONDITIONS=0', '-DALLOW___SYNC_BUILTINS=1', '-DMASSTREE_SIM']
target('mt', [H + 'mt.cc', MT + 'kvthread.cc', MT + 'string.cc', MT + 'straccum.cc', MT + 'str.cc'], MF, 'M01 M02 M03 M04')
MW = 'open creat close read write fsync ftruncate lseek fstat stat mkdir rename unlink socket setsockopt bind listen accept pipe epoll_create epoll_ctl epoll_wait select recvfrom sendto signal setitimer pthread_cancel printf fprintf vfprintf puts putchar fputc putc fwrite perror'.split()
MS = ['-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-I' + R + '/MassTree', '-include', MT + 'config.h', '-DENABLE_ASSERTIONS=1', '-DENABLE_PRECONDITIONS=0', '-DALLOW___SYNC_BUILTINS=1', '-DMASSTREE_SIM']
target('mtds', [(H + 'mtds.cc', ['NOINST']), (H + 'simos.cc', ['NOINST']), H + 'mtd_wrap.cc'] + [MT + x for x in 'log.cc checkpoint.cc file.cc kvio.cc json.cc string.cc straccum.cc str.cc msgpack.cc misc.cc kvrandom.cc memdebug.cc kvthread.cc query_masstree.cc'.split()] + [(MT + 'clp.c', ['NOINST', '-fpermissive', '-w'])], MS, 'S01 S02 S03 S04',
  link=['-lm'] + ['-Wl,--wrap=' + x for x in MW])
