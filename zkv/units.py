"""What is analysed for each property: the entry functions and how they are summarised."""
import re
from .ir import *
from .terms import *
from .engine import Interp, Unsupported
from .wire import WireInterp
from .fp import Summary

LA = 'void (zenkit::ReadArchive &, zenkit::GameVersion)'
SA = 'void (zenkit::WriteArchive &, zenkit::GameVersion) const'
# large self-contained assets embedded in others are separate units
ASSET = {'zenkit::Mesh::load', 'zenkit::BspTree::load', 'zenkit::Mesh::save', 'zenkit::BspTree::save',
         'zenkit::MultiResolutionMesh::load', 'zenkit::MultiResolutionMesh::load_from_section',
         'zenkit::MultiResolutionMesh::save', 'zenkit::MultiResolutionMesh::save_to_section',
         'zenkit::SoftSkinMesh::load', 'zenkit::SoftSkinMesh::save', 'zenkit::ModelMesh::load', 'zenkit::ModelMesh::save',
         'zenkit::ModelHierarchy::load', 'zenkit::ModelHierarchy::save', 'zenkit::WayNet::load', 'zenkit::WayNet::save',
         'zenkit::CutsceneManager::load', 'zenkit::SkyController::load'}


class Unit:
    def __init__(self, key, cls=None, ip=WireInterp, opaque=(), fixed=None, tag='', **kw):
        self.key, self.cls, self.ip, self.opaque, self.fixed, self.tag, self.kw = key, cls, ip, set(opaque), fixed or {}, tag, kw

    @property
    def id(self):
        return self.key + (' @' + self.cls if self.cls else '') + (' #' + self.tag if self.tag else '')


def params(f, fixed):
    args = []
    for q in f['ps']:
        t = deref_ty(q['ty'])
        if q['n'] in fixed:
            args.append(fixed[q['n']])
        elif is_ref(q['ty']):
            args.append((('p', q['n']),))
        elif t[:1] == 'P':
            args.append(mk('ptr', (('p', q['n']),)) if t[1:2] != 'F' else mk('sym', q['n'], ty=t))
        else:
            args.append(mk('sym', q['n'], ty=t))
    return args


def api(p, u):
    """is the entry point declared in a public header?"""
    f = p.funcs[u.key]
    r = p.records.get(f.get('cls') or '')
    return '/include/' in (r['loc'] if r else f['loc'])


def positional(f):
    """parameters are named by position, so that renaming one changes nothing"""
    g = dict(f)
    g['ps'] = [dict(q, n='a%d' % i) for i, q in enumerate(f['ps'])]
    return g


def summarise(prog, u):
    f = prog.funcs[u.key]
    ip = u.ip(prog, **u.kw)
    if isinstance(ip, WireInterp):
        own = f['name']
        ip.opaque_fns = set(x for x in u.opaque if x != own)
        ip.havocs = ip.opaque_fns
    this = (('p', 'this'),)
    cls = u.cls or f.get('cls')
    g = positional(f)
    args = params(g, u.fixed)
    if hasattr(ip, 'prepare'):
        ip.prepare(this, cls, f)
    r = ip.run(u.key, this if f.get('cls') and not f.get('static') else None, cls, args)
    s = Summary.of(ip, r)
    s.unsupported = ip.unsupported
    s.inlined = ip.inlined
    s.ip = ip
    s.roots = {('p', 'this'): 'R' + cls} if cls else {}
    for i, q in enumerate(g['ps']):
        t = deref_ty(q['ty'])
        s.roots[('p', 'a%d' % i)] = unq(t[1:]) if t[:1] == 'P' else t
    for r, t in getattr(ip, 'probes', {}).items():
        s.roots[r] = t
    return s


def objects(p):
    return ['zenkit::Object'] + p.subclasses('zenkit::Object')


def own(p, cls, name, sig=None):
    ks = [k for k in p.method_index.get((cls, name), []) if p.funcs[k].get('b') is not None and not k.startswith('lambda@')]
    if sig:
        ks = [k for k in ks if k.split('|', 1)[1].startswith(sig)]
    return ks


def obj_load(p):
    out = []
    for c in objects(p):
        for k in own(p, c, 'load'):
            if 'ReadArchive' in k.split('|')[1]:
                out.append(Unit(k, opaque=ASSET))
    for c in ('zenkit::SaveState', 'zenkit::LightPreset', 'zenkit::RigidBody', 'zenkit::Date', 'zenkit::AxisAlignedBoundingBox', 'zenkit::OrientedBoundingBox'):
        for k in own(p, c, 'load'):
            out.append(Unit(k, opaque=ASSET))
    return out


def obj_save(p):
    out = []
    for c in objects(p):
        for k in own(p, c, 'save'):
            out.append(Unit(k, opaque=ASSET))
    for c in ('zenkit::SaveState', 'zenkit::LightPreset', 'zenkit::RigidBody', 'zenkit::Date'):
        for k in own(p, c, 'save'):
            out.append(Unit(k, opaque=ASSET))
    return out


ASSETS = ['Font', 'Mesh', 'BspTree', 'MultiResolutionMesh', 'SubMesh', 'MorphMesh', 'ModelAnimation', 'ModelHierarchy', 'ModelMesh', 'Model',
          'SoftSkinMesh', 'Texture', 'AxisAlignedBoundingBox', 'OrientedBoundingBox', 'Date']


def asset_load(p):
    out = []
    for c in ASSETS:
        for m in ('load', 'load_from_section'):
            for k in own(p, 'zenkit::' + c, m):
                if 'Archive' not in k.split('|')[1]:
                    out.append(Unit(k, opaque=ASSET))
    for k in own(p, 'zenkit::World', 'load'):
        if 'Read *' in k:
            out.append(Unit(k, opaque=ASSET))
    return out


def asset_save(p):
    out = []
    for c in ASSETS:
        for m in ('save', 'save_to_section'):
            for k in own(p, 'zenkit::' + c, m):
                if 'Archive' not in k.split('|')[1]:
                    out.append(Unit(k, opaque=ASSET))
    return out


def methods(p, classes, skip=(), only=None, opaque=(), ctors=False, ops=False, also=(), ip=WireInterp, **kw):
    out = []
    for c in classes:
        c = c if c.startswith('zenkit::') else 'zenkit::' + c
        for k in sorted(p.funcs):
            f = p.funcs[k]
            if f.get('cls') != c or k.startswith('lambda@') or f.get('b') is None or f.get('defaulted') or f.get('tmplparam'):
                continue
            m = f['m']
            if m.startswith('~') or (f.get('ctor') and not ctors) or (m.startswith('operator') and not ops) or m in skip:
                continue
            if only and m not in only:
                continue
            # private helpers are seen through their callers
            if f['access'] in (1, 2) and not f.get('virt') and m not in also:
                continue
            out.append(Unit(k, opaque=opaque, ip=ip, **kw))
    return out


def funcs(p, names, opaque=(), **kw):
    return [Unit(k, opaque=opaque, **kw) for n in names for k in sorted(p.by_name.get('zenkit::' + n, []))]


FACTORY = {'zenkit::ReadArchive::read_object'}


def arch_ascii(p):
    return methods(p, ['ReadArchiveAscii', 'WriteArchiveAscii'], opaque=FACTORY)


def arch_binary(p):
    return methods(p, ['ReadArchiveBinary', 'WriteArchiveBinary'], opaque=FACTORY)


def arch_binsafe(p):
    return methods(p, ['ReadArchiveBinsafe', 'WriteArchiveBinsafe'], opaque=FACTORY)


def arch_common(p):
    return methods(p, ['ArchiveHeader', 'ReadArchive', 'WriteArchive'], only=('load', 'save', 'from', 'to', 'to_save', 'skip_object', 'write_object', 'is_save_game'))


def streams(p):
    return methods(p, ['Read', 'Write', 'detail::ReadFile', 'detail::ReadMemory', 'detail::ReadStream', 'detail::WriteDynamic', 'detail::WriteFile',
                       'detail::WriteStatic', 'detail::WriteStream'])


def script(p):
    return methods(p, ['DaedalusScript', 'DaedalusSymbol', 'DaedalusInstruction'], skip=('register_member', '_check_member'))


def vm(p):
    # the public operand-stack and symbol-access operations are units of their own
    own = {'zenkit::DaedalusVm::' + x for x in ('exec', 'push_int', 'push_float', 'push_string', 'push_reference', 'push_instance', 'pop_int', 'pop_float',
                                              'pop_string', 'pop_reference', 'pop_instance', 'get_int', 'get_float', 'set_int', 'set_float', 'set_string', 'unsafe_call', 'unsafe_jump')}
    acc = {'zenkit::DaedalusSymbol::' + x for x in ('get_int', 'get_float', 'get_string', 'get_instance', 'set_int', 'set_float', 'set_string', 'set_instance')}
    scr = {'zenkit::DaedalusScript::' + x for x in ('instruction_at', 'find_symbol_by_index', 'find_symbol_by_address', 'find_symbol_by_name',
                                                  'find_parameters_for_function', 'find_locals_for_function')}
    return methods(p, ['DaedalusVm'], opaque=own | acc | scr, also=('exec',), skip=HOST)


HOST = ('register_external', 'override_function', 'call_function', 'init_instance', 'allocate_instance', 'register_default_external', 'register_default_external_custom',
        'register_access_trap', 'register_exception_handler', 'init_opaque_instance')


def host(p):
    own = {'zenkit::DaedalusVm::' + x for x in ('push_int', 'push_float', 'push_string', 'push_reference', 'push_instance', 'pop_int', 'pop_float',
                                              'pop_string', 'pop_reference', 'pop_instance', 'unsafe_call', 'push_call', 'pop_call')}
    scr = {'zenkit::DaedalusScript::' + x for x in ('find_symbol_by_index', 'find_symbol_by_address', 'find_symbol_by_name', 'find_parameters_for_function')}
    return methods(p, ['DaedalusVm'], only=HOST, opaque=own | scr) + funcs(p, ('lenient_vm_exception_handler',))


FOLD = ('iequals', 'icompare')


def vfs(p):
    node = {'zenkit::VfsNode::child', 'zenkit::VfsNode::create', 'zenkit::VfsNode::remove', 'zenkit::VfsNode::children'}
    return (methods(p, ['Vfs'], opaque=node, skip=('mount_disk', 'save', 'save_internal')) + methods(p, ['VfsNode'])
            + methods(p, ['VfsFileDescriptor', 'VfsNodeComparator'], ops=True, ctors=True) + funcs(p, FOLD))


def vfsdisk(p):
    node = {'zenkit::VfsNode::child', 'zenkit::VfsNode::create', 'zenkit::VfsNode::remove', 'zenkit::VfsNode::children'}
    return methods(p, ['Vfs'], opaque=node, only=('mount_disk', 'save', 'save_internal'), also=('mount_disk', 'save_internal'))


def texture(p):
    return methods(p, ['Texture', 'TextureBuilder'])


def savegame(p):
    return methods(p, ['SaveGame'], opaque=ASSET | {'zenkit::SaveState::load', 'zenkit::SaveState::save', 'zenkit::SaveMetadata::load', 'zenkit::World::save', 'zenkit::World::load'}) + funcs(p, FOLD[:1])


def pick(p, pred, opaque=(), **kw):
    """public functions with a body selected by predicate"""
    out = []
    for k in sorted(p.funcs):
        f = p.funcs[k]
        if k.startswith('lambda@') or f.get('b') is None or f.get('defaulted') or f.get('tmplparam'):
            continue
        if f['access'] in (1, 2) and not f.get('virt') or '@/' in k:
            continue
        if pred(f):
            out.append(Unit(k, opaque=opaque, **kw))
    return out


def factory(p):
    return (pick(p, lambda f: f['name'] == 'zenkit::ReadArchive::read_object') +
            pick(p, lambda f: f.get('m') in ('get_object_type', 'get_version_identifier')))


def modelscript(p):
    tok = {'zenkit::MdsTokenizer::next', 'zenkit::MdsTokenizer::backtrack', 'zenkit::MdsTokenizer::next_line'}
    return methods(p, ['ModelScript'], opaque={'zenkit::MdsParser::parse_script'}) + methods(p, ['MdsParser'], opaque=tok) + methods(p, ['MdsTokenizer']) + funcs(p, FOLD[:1])


def bindings(p):
    return pick(p, lambda f: '/addon/daedalus' in f['loc'], opaque={'zenkit::DaedalusScript::register_member', 'zenkit::DaedalusScript::find_symbol_by_name'})


def members(p):
    kinds = ('std::basic_string<char> zenkit::INpc::', 'int zenkit::INpc::', 'zenkit::NpcType zenkit::INpc::', 'float zenkit::ICamera::', 'std::basic_string<char> (zenkit::INpc::',
             'int (zenkit::INpc::*)[8]', 'float (zenkit::IMenuItem::*)[4]')
    scr = {'zenkit::DaedalusScript::' + x for x in ('find_symbol_by_index', 'find_symbol_by_name')}
    return [u for u in methods(p, ['DaedalusScript'], only=('register_member',), opaque=scr) if any(', ' + k in u.key for k in kinds)]


def cutscene(p):
    return methods(p, ['CutsceneLibrary', 'CutsceneBlock', 'Cutscene'], skip=('load', 'save', 'get_object_type', 'get_version_identifier'), ctors=True)


def texcvt(p):
    return pick(p, lambda f: '/addon/texcvt' in f['loc'])


def math(p):
    return pick(p, lambda f: f['loc'].split(':')[0].endswith(('include/zenkit/Misc.hh', 'src/Misc.cc', 'include/zenkit/Boxes.hh', 'src/Boxes.cc'))
                and f.get('m') not in ('load', 'save', 'parse'))


def misc(p):
    return pick(p, lambda f: f['loc'].split(':')[0].endswith(('src/Logger.cc', 'src/Error.cc', 'src/MmapPosix.cc')))


def has_body(p, pred):
    return sorted(k for k, f in p.funcs.items() if f.get('b') is not None and not f.get('defaulted') and not f.get('tmplparam') and not k.startswith('lambda@')
                  and '@/' not in k and pred(f))


def legacy(p):
    """the static parse entry points; what they delegate to is analysed as properties of its own"""
    load = {f['name'] for f in p.funcs.values() if f.get('m') in ('load', 'parse_script') and '::' in f['name']}
    return [Unit(k, opaque=load) for k in has_body(p, lambda f: f.get('m') == 'parse' and f.get('cls') and f['access'] == 0 and f.get('static'))]


def values(p):
    """equality of value types and construction of the public objects"""
    eq = has_body(p, lambda f: f['access'] not in (1, 2) and (f.get('m') or f['name'].split('::')[-1]) in ('operator==', 'operator!=', 'operator&', 'operator|', 'operator()')
                  and not f['loc'].split(':')[0].endswith(('Misc.hh', 'Misc.cc', 'Boxes.hh', 'Vfs.cc', 'Vfs.hh')))
    return [Unit(k) for k in eq]


CTORS = ('Font', 'SaveGame', 'TextureBuilder', 'DaedalusVm', 'Vfs', 'ReadArchive', 'WriteArchive', 'ReadArchiveAscii', 'ReadArchiveBinary', 'ReadArchiveBinsafe',
         'WriteArchiveAscii', 'WriteArchiveBinary', 'WriteArchiveBinsafe', 'DaedalusTransientInstance', 'DaedalusOpaqueInstance', 'detail::WriteStream', 'detail::ReadStream',
         'detail::ReadMemory', 'detail::ReadFile', 'detail::WriteFile', 'detail::WriteStatic', 'detail::WriteDynamic', 'Mmap', 'VfsFileDescriptor', 'StackGuard', 'Texture', 'DaedalusScript')


def lifecycle(p):
    """constructors, destructors and copies of the types that own something, and the simple accessors"""
    names = {'zenkit::' + x for x in CTORS}
    ks = has_body(p, lambda f: f.get('cls') in names and f['access'] == 0 and (f.get('ctor') or f['m'].startswith('~') or f['m'] in ('operator=', 'get_header', 'get_stream', 'data', 'instance_type')))
    ks += has_body(p, lambda f: f.get('m') in ('enable_packed_save', 'get_header', 'get_stream', 'instance_type') and f.get('cls') not in names)
    return [Unit(k) for k in ks]
