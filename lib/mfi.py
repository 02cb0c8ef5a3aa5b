"""The media file class: its status members, result members and the objects embodying 'this'."""
from facts import nodes, AnalysisBroken
from backup import strip
from access import lroot

ENTRY = ('parseContainerFormat', 'parseTracks', 'parseTags', 'parseChapters', 'parseAttachments', 'parseEverything')
CLS = 'TagParser::MediaFileInfo'


class Mfi:
    def __init__(self, sh):
        self.sh, self.p = sh, sh.p
        p = sh.p
        self.rec = p.rec('MediaFileInfo')
        self.fields = {CLS + '::' + f['n'] for f in self.rec['fields']}
        self.status = {}
        for part, getter in (('ContainerFormat', 'containerParsingStatus'), ('Tracks', 'tracksParsingStatus'), ('Tags', 'tagsParsingStatus'),
                             ('Chapters', 'chaptersParsingStatus'), ('Attachments', 'attachmentsParsingStatus')):
            g = p.q('MediaFileInfo::' + getter)[0]
            t = sh.acc.trivial(g.id)
            k = sh.acc.key(*t) if t else None
            if not k:
                raise AnalysisBroken('%s is no plain getter' % g.q)
            self.status[part] = k
        self.vals = {a.split('::')[-1]: b for a, b in p.enum('ParsingStatus')['vals']}
        # members holding results: modified by the parse methods
        roots = [f for e in ENTRY for f in p.q('MediaFileInfo::' + e)]
        r = set()
        for fid in sh.reach(roots):
            r |= sh.mod.direct.get(fid, set())
        self.results = r & self.fields
        self.family = p.ancestors(CLS) | {CLS}

    def own(self, fid):
        """member of the class (or a base), free function or lambda of the repository"""
        f = self.p.fns.get(fid)
        if not f or not f.file.startswith(self.p.repo + '/'):
            return False
        while 'lambda' in f.d and f.d['lambda'] in self.p.fns:
            f = self.p.fns[f.d['lambda']]
        return not f.rec or f.rec in self.family

    def initial(self):
        """member name -> value a fresh object has (constant, or 'empty')"""
        out = {}
        for f in self.p.fns.values():
            if f.rec == CLS and f.d.get('role') == 'ctor':
                for i in f.inits:
                    n = i.get('f') or i.get('n') or i.get('m')
                    e = i.get('e')
                    if n and e is not None:
                        out[n.split('::')[-1]] = strip(e).get('cv', e.get('cv', 'empty'))
        return out
