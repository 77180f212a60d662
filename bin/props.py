"""What each check runs: bounded models, and random programs, per property."""

ASSUME = [
    'gcc 13 and the x86-64 build of the library with the flags of bin/buildlib.sh stand for every build',
    'the virtual kernel (harness/vk.c) gives the answers Linux may give to the calls the library makes',
    'TLC evaluates the specification correctly',
    'behaviours beyond the bounds of the model and beyond the generated programs are not covered',
]


def level(pid):
    return 'model_checking'


EP = ['epoll', 'poll']


def rnd(mix, n, fl=EP, per=120, args=(), **kw):
    return dict(mix=mix, n=n, flavours=list(fl), per=per, args=list(args), **kw)


def mc(K, ops, dls='{2,999}', maxcr=2, maxob=2, fds='{}', more=1, fl=EP, quick=8000, thorough=120000):
    """A bounded model of Core: every program of K calls over an alphabet."""
    return dict(spec='CoreMC', inv=['Inv'], prop=['WokenOnce'],
                const={'K': K, 'OPS': '{' + ','.join('"%s"' % o for o in ops.split()) + '}', 'DLS': dls,
                       'MAXCR': maxcr, 'MAXOB': maxob, 'FDS': fds, 'BE': '"epoll"'},
                thorough={'K': K + more}, job=dict(flavours=list(fl)),
                scripts_quick=quick, scripts_thorough=thorough)


def nrnd(mix, n, fl=EP, per=120, **kw):
    return rnd(mix, n, fl, per, set='net', spec='NetTrace', **kw)


def nmc(case, K, ops, dls='{5,999}', cuts='{1,2}', wks=2, frag=0, more=1, fl=EP, quick=4000, thorough=60000):
    """A bounded model of Net."""
    return dict(spec='NetMC', inv=['Inv'], prop=['Sticky', 'Silent'],
                const={'K': K, 'OPS': '{' + ','.join('"%s"' % o for o in ops.split()) + '}', 'CASE_': '"%s"' % case,
                       'DLS': dls, 'CUTS': cuts, 'WKS': wks, 'FRAG': frag},
                thorough={'K': K + more}, job=dict(set='net', spec='NetTrace', flavours=list(fl)),
                scripts_quick=quick, scripts_thorough=thorough)


def umc(K, ops, dls='{5,999}', wks=2, more=1, fl=EP, quick=4000, thorough=40000):
    """A bounded model of Udp."""
    return dict(spec='UdpMC', inv=['Inv'], prop=[],
                const={'K': K, 'OPS': '{' + ','.join('"%s"' % o for o in ops.split()) + '}', 'DLS': dls, 'WKS': wks},
                thorough={'K': K + more}, job=dict(set='net', spec='UdpTrace', flavours=list(fl)),
                scripts_quick=quick, scripts_thorough=thorough)


def tmc(K, ops, dls='{999}', wks=1, more=1, fl=EP, quick=2500, thorough=40000):
    """A bounded model of Tls."""
    return dict(spec='TlsMC', inv=['Inv'], prop=[],
                const={'K': K, 'OPS': '{' + ','.join('"%s"' % o for o in ops.split()) + '}', 'DLS': dls, 'WKS': wks},
                thorough={'K': K + more}, job=dict(set='net', spec='TlsTrace', flavours=list(fl)),
                scripts_quick=quick, scripts_thorough=thorough)


def emc(K, ops, dls='{9999}', wks=1, more=1, fl=EP, quick=4000, thorough=40000):
    """A bounded model of Eyes."""
    return dict(spec='EyesMC', inv=['Inv'], prop=[],
                const={'K': K, 'OPS': '{' + ','.join('"%s"' % o for o in ops.split()) + '}', 'DLS': dls, 'WKS': wks},
                thorough={'K': K + more}, job=dict(set='net', spec='EyesTrace', flavours=list(fl)),
                scripts_quick=quick, scripts_thorough=thorough)


def dmc(K, ops, cfs, modes='{3}', dls='{9999999}', wks=1, more=1, fl=EP, quick=4000, thorough=40000):
    """A bounded model of Dns."""
    return dict(spec='DnsMC', inv=['Inv'], prop=[],
                const={'K': K, 'OPS': '{' + ','.join('"%s"' % o for o in ops.split()) + '}', 'DLS': dls, 'WKS': wks, 'CFS': cfs, 'MODES': modes},
                thorough={'K': K + more}, job=dict(set='net', spec='DnsTrace', flavours=list(fl)),
                scripts_quick=quick, scripts_thorough=thorough)


def amc(K, ops, more=1, fl=EP, quick=4000, thorough=40000):
    """Texts and addresses."""
    return dict(spec='AddrMC', inv=['Inv'], prop=[],
                const={'K': K, 'OPS': '{' + ','.join('"%s"' % o for o in ops.split()) + '}'},
                thorough={'K': K + more}, job=dict(set='net', spec='AddrTrace', flavours=list(fl)),
                scripts_quick=quick, scripts_thorough=thorough)


PROPS = {
    'C01': dict(mc=[mc(10, 'go yield work msleep', maxcr=3, maxob=3)],
                jobs=[rnd('sched', 1000), rnd('stack', 40, per=20), rnd('all', 300)]),
    'C02': dict(mc=[mc(9, 'go chmake chsend msleep bwait yield', maxob=3),
                    mc(7, 'go fd msleep hclose', dls='{0,2,999}', fds='{0,1}', quick=3000)],
                jobs=[rnd('block', 1000), rnd('choose', 300), rnd('all', 300)]),
    'C03': dict(mc=[mc(8, 'go msleep bwait work fd eintr', dls='{0,2,4}', fds='{0}')],
                jobs=[rnd('time', 1000), rnd('block', 300), rnd('all', 200)]),
    'C04': dict(mc=[mc(9, 'go gob bundle yield bwait hclose', dls='{999}', maxcr=3, maxob=3)],
                jobs=[rnd('close', 1200), rnd('stack', 30, per=15), rnd('all', 200)]),
    'C05': dict(mc=[mc(9, 'go chmake chrecv msleep bwait hclose fd', dls='{999}', maxob=3, fds='{0}'),
                    mc(7, 'go hmake chmake chrecv msleep hclose yield', dls='{999}', maxob=4, quick=4000)],
                jobs=[rnd('cancel', 1200), rnd('close', 300), rnd('all', 200)]),
    'C06': dict(mc=[mc(9, 'go gob yield msleep bwait hclose', maxcr=3)],
                jobs=[rnd('bwait', 1200), rnd('all', 200)]),
    'C07': dict(mc=[mc(8, 'go chmake chsend chrecv yield chsend8', dls='{0,2,999}', maxob=3)],
                jobs=[rnd('chan', 1000), rnd('choose', 200), rnd('all', 200)]),
    'C08': dict(mc=[mc(9, 'go chmake chsend chrecv chdone hclose', dls='{999}', maxob=3)],
                jobs=[rnd('chdone', 1200), rnd('all', 200)]),
    'C09': dict(mc=[mc(7, 'go chmake chsend choose', maxob=3, quick=5000),
                    mc(6, 'go chmake chrecv choose chdone', dls='{0,999}', maxob=3, quick=5000)],
                jobs=[rnd('choose', 1200), rnd('all', 200)]),
    'C10': dict(mc=[mc(7, 'bundle hmake hown hclose chmake', dls='{999}', maxcr=1, maxob=3)],
                jobs=[rnd('handle', 120, per=20), rnd('cancel', 300), rnd('all', 200)]),
    'C11': dict(mc=[mc(7, 'go fd fdclean yield', dls='{0,2,999}', fds='{0,1}', quick=12000)],
                jobs=[rnd('fd', 1200), rnd('fdmany', 48, per=6), rnd('all', 200)]),
    'C12': dict(mc=[mc(8, 'go yield work fd hclose', dls='{0,2,999}', maxob=3, fds='{0}')],
                jobs=[rnd('busy', 1200), rnd('sched', 300), rnd('all', 200)]),
    'C13': dict(mc=[mc(7, 'go gob bundle yield hclose', dls='{999}', maxcr=3, maxob=3, fl=['epoll', 'arch'], quick=4000)],
                jobs=[rnd('stack', 160, ['epoll', 'arch'], per=10), rnd('cache', 60, ['epoll', 'arch'], per=10), rnd('all', 300, ['epoll', 'arch', 'thrfb'])]),
    'C14': dict(mc=[mc(6, 'go chmake chsend chrecv msleep', fl=['epoll'], maxob=3, quick=2000)],
                jobs=[rnd('thread', 300, ['epoll', 'poll', 'thrfb'], per=30, args=['--duo', '1']),
                      rnd('all', 100, ['epoll', 'thrfb'], per=25, args=['--duo', '1'])]),
    'C15': dict(mc=[mc(7, 'go chmake hmake bundle chsend hclose', dls='{999}', maxob=3, quick=4000)],
                jobs=[rnd('release', 400, args=['--reps', '4'], per=30),
                      rnd('grow', 600),
                      rnd('cache', 60, per=10),
                      rnd('handle', 16, args=['--reps', '3'], per=4),
                      rnd('fd', 100, args=['--reps', '3'], per=30),
                      nrnd('many', 40, per=20)]),
    # sockets
    'S01': dict(mc=[nmc('stream', 6, 'brecv hclose eof', wks=1), nmc('stream2', 6, 'brecv bsend eof', dls='{999}', frag=1)],
                jobs=[nrnd('stream', 2*500), nrnd('lists', 2*200)]),
    'S02': dict(mc=[nmc('stream', 5, 'bsend hclose txerr cancel', dls='{0,5,999}', cuts='{}'),
                    nmc('stream2', 5, 'bsend brecv', cuts='{2}', frag=1)],
                jobs=[nrnd('sends', 2*500), nrnd('stream', 2*100), nrnd('lists', 2*100)]),
    'S03': dict(mc=[nmc('stream', 4, 'bsend brecv done eof rst txerr cancel', dls='{0,5,999}')],
                jobs=[nrnd('errors', 2*600), nrnd('stream', 2*100)]),
    'S04': dict(mc=[nmc('close', 5, 'bsend brecv done close hclose eof rst txerr cancel', dls='{0,5,999}')],
                jobs=[nrnd('closing', 2*700), nrnd('making', 2*150)]),
    'S05': dict(mc=[nmc('stream', 4, 'bsend brecv wrong', dls='{999}', quick=1000)],
                jobs=[nrnd('lists', 2*700)]),
    'S06': dict(mc=[nmc('stream', 4, 'bsend close hclose', quick=500)],
                jobs=[nrnd('making', 2*700), nrnd('release', 2*200)]),
    'S07': dict(mc=[nmc('stream2', 4, 'bsend brecv close', quick=500)],
                jobs=[nrnd('fdpass', 2*800), nrnd('making', 2*100)]),
    'M01': dict(mc=[nmc('prefix', 5, 'msend mrecv hclose eof rst', cuts='{1,2,6}'), nmc('prefix2', 5, 'msend mrecv detach cancel', cuts='{1,3}', frag=1)],
                jobs=[nrnd('prefix', 2*600), nrnd('lists', 2*150)]),
    'M02': dict(mc=[nmc('suffix', 5, 'msend mrecv hclose eof rst', cuts='{1,2,6}'),
                    nmc('suffix2', 7, 'mrecv detach eof', cuts='{1,2,4}', wks=1)],
                jobs=[nrnd('suffix', 2*600), nrnd('lists', 2*150)]),
    'M03': dict(mc=[nmc('term', 5, 'msend mrecv mdone detach eof', cuts='{2,4}'), nmc('term0', 6, 'msend mrecv mdone detach', cuts='{1,2}', wks=1)],
                jobs=[nrnd('term', 2*700), nrnd('stack', 2*100)]),
    'M04': dict(mc=[nmc('layers', 6, 'attach detach bsend brecv msend mrecv hclose', cuts='{2,4}', wks=1)],
                jobs=[nrnd('stack', 2*600), nrnd('release', 2*250)]),
    'H01': dict(mc=[nmc('http', 4, 'hsend hrecv mdone eof', cuts='{2,14,24}'),
                    nmc('http2', 6, 'hrecv hsend detach', dls='{999}', cuts='{15,17,27}', wks=1, frag=1)],
                jobs=[nrnd('http', 2*700)]),
    'W01': dict(mc=[nmc('wsc', 4, 'wsend wrecv eof cancel', cuts='{1,2,6}'),
                    nmc('wss', 6, 'wsend wrecv msend mrecv', dls='{999}', cuts='{3,7,15}', wks=1, frag=1)],
                jobs=[nrnd('ws', 2*700)]),
    'W02': dict(mc=[nmc('wsc', 4, 'wsend wrecv wdone wstatus detach eof', cuts='{2,6,13}'),
                    nmc('wss', 6, 'wsend wrecv wdone detach rst', dls='{999}', cuts='{7,15,6}', wks=1)],
                jobs=[nrnd('ws', 2*600), nrnd('release', 2*150)]),
    'W03': dict(mc=[nmc('hands', 8, 'wsattach', dls='{999}', cuts='{}', wks=1, more=0),
                    nmc('handc', 6, 'wsattach other eof', cuts='{}', wks=1)],
                jobs=[nrnd('wshand', 2*700), nrnd('release', 2*100)]),
    'U01': dict(mc=[umc(4, 'urecv arrive rxerr cancel'), umc(5, 'usend txerr full hclose', dls='{999}', wks=1)],
                jobs=[rnd('udp', 2*600, set='net', spec='UdpTrace'), rnd('udpinj', 2*200, set='net', spec='UdpTrace')]),
    'E01': dict(mc=[emc(8, 'answer outcome cancel late part', dls='{60,9999}'), emc(6, 'answer outcome cancel', wks=2)],
                jobs=[rnd('eyes', 700, per=60, set='net', spec='EyesTrace'), rnd('eyesinj', 300, per=60, set='net', spec='EyesTrace')]),
    'I01': dict(mc=[amc(5, 'addr'), amc(4, 'pairs odd')],
                jobs=[rnd('addr', 500, per=60, set='net', spec='AddrTrace')]),
    'T01': dict(mc=[tmc(5, 'brecv tdetach d cn r x part end hclose'), tmc(5, 'bsend tdone tdetach full txerr cn', dls='{5,999}'),
                    tmc(4, 'bsend brecv tdone tdetach hclose d cn x full cancel', dls='{5,999}', wks=2)],
                jobs=[rnd('tls', 160, per=30, set='net', spec='TlsTrace'), rnd('tlserr', 120, per=30, set='net', spec='TlsTrace'),
                      rnd('tlsinj', 100, per=30, set='net', spec='TlsTrace')]),
    'N01': dict(mc=[dmc(5, 'alias', '{11,20}', modes='{1}'), dmc(5, 'many fail', '{20,71,12,30}', modes='{2,3}'), dmc(7, 'tcp time err', '{1}'),
                    dmc(4, 'tcp time err fail', '{14,24}'), dmc(4, 'time cancel', '{1}', modes='{1}', dls='{0,3000,9999999}', wks=2)],
                jobs=[rnd('dns', 600, per=60, set='net', spec='DnsTrace'), rnd('dnsinj', 200, per=60, set='net', spec='DnsTrace')]),
    'K01': dict(mc=[nmc('s5c', 7, 's5 eof hclose cancel', dls='{5,999}', cuts='{}', wks=1, frag=0),
                    nmc('s5p', 6, 's5 eof', dls='{999}', cuts='{}', wks=1, frag=0)],
                jobs=[nrnd('socks', 2*700)]),
}

NOTE = ('The bounded model is explored exhaustively (every program of at most K calls over an alphabet, every environment '
        'behaviour); the implementation is bound to the same specification by validating every event of recorded executions: '
        'scripts enumerated from the model and seeded random programs far beyond its bounds. Trusted: TLC, the virtual kernel, '
        'the driver\'s recording. Not covered: programs outside the generators, other architectures.')
