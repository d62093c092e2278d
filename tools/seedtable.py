"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,glob,os,re
t=open('/verif/DESIGN.md').read()
rows=['Each of them was written from a property statement and the code, kept whether or not it was caught, and is caught by the',
'quick check of its property (exit 1, `VIOLATION property=...`). Where the first version of a check missed one, the check was',
'extended to the whole class of inputs or histories, not to the one in the demonstration ("added").','',
'| planted bug | property | needs | caught by |','|---|---|---|---|']
added={'p44-unreadable-opacity':'unfit','p49-round-again':'rounds','p03-half-turn-flag':'half turns','p11-late-extremum':'bbox-late','p17-nearly-all-round':'places next to it','p15-close-is-line':'closes and lines','p23-faint-percentage':'far quotients: percentages','p26-256':'writes of 256','p28-nearly-opaque':'alpha 254','p20-opposite-anchor':'anchors','p20-flattened-x':'anchors: zero factors','p20-mirrored-equal':'equality: negated entries','p21-only-second-length':'given lengths','p52-smooth-still':'coincident points','p41-zero-attribute':'values','p21-render-relative':'lengths with mixed sizes','p13-reversed-move':'edited-first','p11-slight-rotation':'nearly level arcs in all arc grids','p18-sweep-digits':'sweeps','p19-short-line':'closest at other magnitudes','p07-full-turn-arc':'reverse-turns','p03-smooth-across-line':'round-trip-apart','p29-last-cube':'all 2^24 indices','p11-thin-cubic':'bbox-nearly-lower-order','p12-near-circle':'length-nearly-lower-order','p27-gray-lightness':'every-hsl','p46-href-order':'among others','p06-extend-from-nothing':'zero-length roots','p44-opacity-zero':'translucent','p03-nearly-smooth':'nearly-smooth','p10-tiny-path':'sizes','p14-fixed-quads':'small errors','p22-nearly-one':'nearly-the-same','p31-polar-distance':'negative distances','p32-flat-corner':'sizes, flat','p35-tiny-close':'short-closes','p14-first-arc':'arcs first in a path, every place','p23-small-amount':'far sums','p34-kept-theta':'asked','p22-kept-view':'asked','p46-kept-link':'asked','p42-remembers-unknown':'ids not there yet','p44-kept-ancestors':'moves','p07-there-and-back':'reverse-retraced','p09-barely-too-small':'arc-fit','p15-length-first':'near-equality-asked','p45-empty-positional':'zeros','p23-inch-over-mm':'far quotients','p04-lone-z':'builder-z','p31-reflect-in-place':'own results'}
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); i=f.split('/')[-2]
    rows.append('| %s | %s | %s | %s%s |'%(i,m['property'],m['needs'].replace('|','/'),m['property'],' (added: %s)'%added[i] if i in added else ''))
b='<!-- seeds -->\n'; e='<!-- /seeds -->\n'
blk=b+'\n'.join(rows)+'\n'+e
if b in t: t=t[:t.index(b)]+blk+t[t.index(e)+len(e):]
else: t=t.replace('SEEDTABLE\n',blk)
open('/verif/DESIGN.md','w').write(t)
