RULE = 'a picture with more than two different pixels was prepared and is smaller than the original, or the request was refused'
QUICK, THOROUGH = 3000, 25000
import os
import numpy as np
import build
from PIL import Image

SCRIPT = build.REPO + '/util/prepare_images.py'


def picture(c, w, h):
    r = np.random.RandomState(c.seed() & 0x7fffffff)
    return r.randint(0, 256, (h, w, c.pick([3, 3, 1]))).astype(np.uint8)


def prop(c):
    d = c.work + '/' + c.pick(['val', 'images of a test', 'a.JPEG'])
    os.makedirs(d)
    mode = c.pick(['center_crop', 'crop', 'scale'])
    w, h = c.pick([1, 2, 7, 16, c.int(1, 60)]), c.pick([1, 3, 8, 16, c.int(1, 60)])
    one = c.chance(1, 4)
    if one:
        h = w
    px, py = c.pick([0, 1, c.int(0, 30)]), c.pick([0, 2, c.int(0, 30)])
    if mode == 'crop' and c.chance(1, 4):
        py = px
        pos = [px]
    else:
        pos = [px, py]
    pics = {}
    for i in range(c.int(1, 4)):
        name = c.pick(['ILSVRC2012_val_%08d.JPEG', 'ILSVRC%d.JPEG', 'other%d.JPEG' if mode != 'crop' else 'ILSVRC_%d.JPEG']) % (i + 1)
        # the picture has to contain what is cut out
        ow = (px + w + 1 if mode == 'crop' else w if mode == 'center_crop' else 1) + c.pick([0, 1, 2, c.int(0, 40)])
        oh = (py + h + 1 if mode == 'crop' else h if mode == 'center_crop' else 1) + c.pick([0, 1, 3, c.int(0, 40)])
        pics[name] = picture(c, ow, oh)
        Image.Image(pics[name]).save(d + '/' + name)
        c.text('%s %dx%d' % (name, ow, oh))
    others = c.pick([[], ['notes.txt'], ['a.png', 'ILSVRC.jpegs', 'x.JPEG.bak']])
    for f in others:
        with open(d + '/' + f, 'w') as g:
            g.write('not a picture')
    c.label(mode)
    before = {f: open(d + '/' + f, 'rb').read() for f in os.listdir(d)}
    args = ['--directory', d, '--mode', mode, '--size'] + ([str(w)] if one else [str(w), str(h)])
    if mode == 'crop':
        args += ['--crop_pos'] + [str(p) for p in pos]
    log = c.work + '/log'
    bad = ''
    if c.chance(1, 12):
        k = c.n(3)
        if k == 0:
            args[3] = 'centre'
        elif k == 1:
            args = args[:5] + ['1', '2', '3']
        else:
            mode = 'crop'
            args = args[:3] + ['crop'] + args[4:5] + [str(w), str(h)]
        bad = ['unknown mode', 'three sizes', 'crop without position'][k]
    c.text('%s %s' % (' '.join(args[2:]), bad))
    for again in range(c.int(1, 3)):
        if again and c.flip():
            name = c.pick(sorted(pics))
            h0, w0 = pics[name].shape[:2]
            pics[name] = picture(c, w0 + c.pick([0, 0, 1, 5]), h0 + c.pick([0, 0, 2, 3]))
            Image.Image(pics[name]).save(d + '/' + name)
            before[name] = open(d + '/' + name, 'rb').read()
            c.label('picture replaced')
        rc = build.run_script(SCRIPT, args, c.work, log)
        out = open(log, errors='replace').read()
        c.check('Traceback' not in out and rc in (0, 1), 'utility stops', out[-1500:])
        for f, b in before.items():
            c.check(open(d + '/' + f, 'rb').read() == b, 'original changed', f)
        made = [(r, f) for r, _, fs in os.walk(c.work) for f in fs if r != d and not (r == c.work and f == 'log')]
        if bad:
            c.label(bad)
            c.check(not made, 'pictures for an unusable request', '%s: %s\n%s' % (bad, made, out[-800:]))
            c.nontrivial()
            return
        c.check(rc == 0, 'utility fails', out[-1500:])
        c.check(len(made) == len(pics) and len({r for r, _ in made}) == 1, 'not one picture for every picture', '%s instead of %d\n%s' % (made, len(pics), out[-800:]))
        for name, a in pics.items():
            fit = [(r, f) for r, f in made if f.endswith(name)]
            c.check(len(fit) == 1, 'not one picture for every picture', '%s: %s' % (name, fit))
            r = Image.open(os.path.join(*fit[0]))
            c.check(r.size == (w, h), 'picture of another size', '%s: %dx%d instead of %dx%d' % (name, r.size[0], r.size[1], w, h))
            if mode == 'scale':
                want = ' resize %dx%d to %dx%d of ' % (a.shape[1], a.shape[0], w, h)
                c.check(r.note.startswith(want) and r.note.count('resize') == 1, 'not the whole picture is scaled', '%s: %s' % (name, r.note))
                ok = (r.a == Image.Image(a).resize((w, h)).a).all()
            elif mode == 'crop':
                ok = (r.a == a[py:py + h, px:px + w]).all()
            else:
                my, mx = a.shape[0] - h, a.shape[1] - w
                ok = any((r.a == a[y:y + h, x:x + w]).all() for y in {my // 2, (my + 1) // 2} for x in {mx // 2, (mx + 1) // 2})
            c.check(ok, 'another part of the picture', '%s %dx%d: %s' % (name, a.shape[1], a.shape[0], mode))
            if len(np.unique(r.a)) > 2 and r.a.size < a.size:
                c.nontrivial()
