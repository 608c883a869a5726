"""writes DESIGN.md from design_head.md, the claims, the properties, known_findings.txt and design_tail.md (run by hand)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMS, NOT = {}, {}
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
MODS = {'C01': ('Framing', 'framing.cpp'), 'C02': ('Framing', 'framing.cpp'), 'C03': ('Packers', 'packers.cpp'), 'C04': ('Queue TraceQueue', 'queue.cpp'),
        'C05': ('LinkSend LinkRecv TraceSend TraceRecv', 'linksend.cpp linkrecv.cpp sendmt.cpp recvmt.cpp udprecv.cpp'), 'C06': ('LinkSend LinkRecv Pieces TraceLoop', 'linksend.cpp linkrecv.cpp loop.cpp'),
        'C07': ('LinkSend TraceSend', 'linksend.cpp sendmt.cpp'), 'C08': ('LinkSend Wakeup TraceSend', 'linksend.cpp sendmt.cpp'), 'C09': ('LinkRecv Dispatch TraceRecv', 'linkrecv.cpp recvmt.cpp udprecv.cpp'),
        'C10': ('LinkRecv Dispatch TraceRecv', 'linkrecv.cpp recvmt.cpp udprecv.cpp'), 'C11': ('LinkLife', 'life.cpp'), 'C12': ('LinkLife', 'life.cpp'), 'C13': ('Pool TracePool', 'pool.cpp poolmt.cpp'), 'C14': ('Pool', 'pool.cpp'),
        'C15': ('Timer TraceTimer', 'timer.cpp timermt.cpp'), 'C16': ('Pump', 'pump.cpp'), 'C17': ('Refs TraceRefs', 'refs.cpp'), 'C18': ('LinkLife', 'life.cpp'), 'C19': ('SyncSend TraceSync', 'syncmt.cpp'), 'C20': ('SyncRecv TraceSync', 'syncmt.cpp'),
        'C21': ('Accept', 'accept.cpp'), 'C22': ('Heartbeat HeartbeatPair', 'heart.cpp'), 'C23': ('UdpLink LinkRecv TraceLoop', 'udpsend.cpp udprecv.cpp udploop.cpp'), 'C24': ('Socks', 'socks.cpp'), 'C25': ('Buffer TraceBuffer', 'buffer.cpp'),
        'C26': ('LinkSend LinkRecv', 'linksend.cpp linkrecv.cpp'), 'C27': ('Broadcast TraceBroadcast', 'bcast.cpp bcastmt.cpp'), 'C28': ('Callbacks', 'callbacks.cpp'), 'C29': ('TraceLoop TraceSecure', 'loop.cpp'), 'C30': ('Transfer TraceTransfer', 'transfer.py'), 'C31': ('Reliable TraceLoop', 'reliable.cpp relloop.cpp kcp/ikcp.h')}
out = [open(os.path.join(V, 'tools', 'design_head.md')).read().rstrip(), '', '## Properties', '']
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    out.append('### %s %s' % (i, p['title']))
    out.append('')
    if i in CLAIMS:
        level, how, note = CLAIMS[i]
        out.append('*Specification*: %s. *Binding* (%s): %s.' % (', '.join('`%s.tla`' % m for m in MODS[i][0].split()), ', '.join('`%s`' % m for m in MODS[i][1].split()), how))
        out.append('*Scope and bounds*: %s' % note)
        out.append('*What tests cannot settle*: %s' % p['why_tests_cant'])
    else:
        out.append('Not claimed: %s' % NOT.get(i, 'check not built yet'))
    out.append('')
out += ['## Defects found', '', 'All are listed in `known_findings.txt`; `fixed` ones are repaired in /repo (commits starting with "fix:"), `finding` ones are left alone because',
        'their repair would change the message container of the library (a message queued in pieces is several entries of the send buffer).', '']
for l in open(os.path.join(V, 'known_findings.txt')):
    if l.strip():
        out.append('* ' + l.strip())
table = ['| planted bug | property (the check which catches it) | needs |', '|---|---|---|']
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    table.append('| %s | %s | %s |' % (d, m['property'], ' '.join(m['needs'].split()).replace('|', '/')))
out += ['', open(os.path.join(V, 'tools', 'design_tail.md')).read().rstrip().replace('SEEDTABLE', '\n'.join(table) + '\n'), '']
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
