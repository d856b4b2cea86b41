"""What a user of the library can see of a Book, in a canonical JSON-able form.

Only documented, public surface is read (methods and documented attributes), so that code which
computes the same answers differently looks the same."""
import struct

MISSING = '<missing>'


def val(x):
    if isinstance(x, bool):
        return 'b:%d' % x
    if isinstance(x, float):
        return 'f:' + struct.pack('>d', x).hex()
    if isinstance(x, int):
        return 'i:%d' % x
    if isinstance(x, str):
        return 's:' + x
    if isinstance(x, (bytes, bytearray)):
        return 'b:' + bytes(x).hex()
    if x is None:
        return None
    if isinstance(x, (list, tuple)):
        return [val(y) for y in x]
    return '?%s' % type(x).__name__


def plain(x):
    """ints, strings and lists as they are (for attributes)."""
    if x is None or isinstance(x, (int, str)) and not isinstance(x, bool):
        return x
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, float):
        return 'f:' + struct.pack('>d', x).hex()
    if isinstance(x, (bytes, bytearray)):
        return 'b:' + bytes(x).hex()
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    return '?%s' % type(x).__name__


def attrs(o, names):
    return {n: plain(getattr(o, n, MISSING)) for n in names}


def row_attrs(o, v):
    d = attrs(o, ROW)
    if v < 30:
        # not stored in such a file: None and 0 say the same
        d = {k: x or 0 for k, x in d.items()}
    return d


FONT = ['font_index', 'name', 'height', 'bold', 'italic', 'underlined', 'struck_out', 'outline', 'shadow', 'colour_index', 'weight',
        'escapement', 'underline_type', 'family', 'character_set']
BORDER = ['top_colour_index', 'bottom_colour_index', 'left_colour_index', 'right_colour_index', 'diag_colour_index', 'top_line_style',
          'bottom_line_style', 'left_line_style', 'right_line_style', 'diag_line_style', 'diag_down', 'diag_up']
BACKGROUND = ['fill_pattern', 'background_colour_index', 'pattern_colour_index']
ALIGN = ['hor_align', 'vert_align', 'rotation', 'text_wrapped', 'indent_level', 'shrink_to_fit', 'text_direction']
PROT = ['cell_locked', 'formula_hidden']
XF = ['is_style', 'parent_style_index', '_format_flag', '_font_flag', '_alignment_flag', '_border_flag', '_background_flag', '_protection_flag',
      'xf_index', 'font_index', 'format_key', 'lotus_123_prefix']
ROW = ['height', 'has_default_height', 'outline_level', 'outline_group_starts_ends', 'hidden', 'height_mismatch', 'has_default_xf_index',
       'xf_index', 'additional_space_above', 'additional_space_below']
COL = ['width', 'xf_index', 'hidden', 'bit1_flag', 'outline_level', 'collapsed']
HL = ['frowx', 'lrowx', 'fcolx', 'lcolx', 'type', 'desc', 'target', 'textmark', 'quicktip']
SHEET_FMT_ATTRS = ['show_formulas', 'show_grid_lines', 'show_sheet_headers', 'panes_are_frozen', 'show_zero_values',
                   'automatic_grid_line_colour', 'columns_from_right_to_left', 'show_outline_symbols',
                   'remove_splits_if_pane_freeze_is_removed', 'sheet_selected', 'sheet_visible', 'show_in_page_break_preview',
                   'first_visible_rowx', 'first_visible_colx', 'gridline_colour_index', 'gridline_colour_rgb', 'scl_mag_factor',
                   'cooked_page_break_preview_mag_factor', 'cooked_normal_view_mag_factor', 'cached_page_break_preview_mag_factor',
                   'cached_normal_view_mag_factor', 'vert_split_pos', 'horz_split_pos', 'horz_split_first_visible',
                   'vert_split_first_visible', 'split_active_pane', 'has_pane_record', 'default_row_height', 'default_row_height_mismatch',
                   'default_row_hidden', 'default_additional_space_above', 'default_additional_space_below', 'defcolwidth',
                   'standardwidth', 'gcw']
BOOK = ['nsheets', 'biff_version', 'datemode', 'codepage', 'encoding', 'countries', 'user_name', 'ragged_rows', 'formatting_info']
NAME = ['name', 'scope', 'name_index', 'hidden', 'func', 'vbasic', 'macro', 'complex', 'builtin', 'funcgroup', 'binary']


def rle(lens):
    out = []
    for x in lens:
        if out and out[-1][0] == x:
            out[-1][1] += 1
        else:
            out.append([x, 1])
    return out


def obs_sheet(sh, fmt):
    n = sh.nrows
    cells, xf, lens = {}, {}, []
    for r in range(n):
        tt, vv = sh.row_types(r), sh.row_values(r)
        m = sh.row_len(r)
        lens.append(m)
        if len(tt) != m or len(vv) != m:
            cells['row %d' % r] = 'types %d values %d row_len %d' % (len(tt), len(vv), m)
        for c in range(min(len(tt), len(vv))):
            t = tt[c]
            if t != 0:
                cells['%d,%d' % (r, c)] = [t, val(vv[c])]
                if fmt:
                    xf['%d,%d' % (r, c)] = sh.cell_xf_index(r, c)
            elif vv[c] != '':
                cells['%d,%d' % (r, c)] = [t, val(vv[c])]
    o = {'name': sh.name, 'number': sh.number, 'nrows': n, 'ncols': sh.ncols, 'visibility': sh.visibility, 'cells': cells,
         'row_len': rle(lens), 'rich': {'%d,%d' % k: plain(v) for k, v in sh.rich_text_runlist_map.items()}}
    if fmt:
        o['xf'] = xf
        if sh.biff_version == 20:
            o['xf20'] = {k: xf20(sh.book.xf_list[i]) for k, i in xf.items()}
        o['merged'] = plain(sh.merged_cells)
        o['rowinfo'] = {str(k): row_attrs(v, sh.biff_version) for k, v in sh.rowinfo_map.items()}
        o['colinfo'] = {str(k): attrs(v, COL) for k, v in sh.colinfo_map.items()}
        o['colwidth'] = rle([sh.computed_column_width(c) for c in range(256)])
    o['notes'] = {'%d,%d' % k: {'author': v.author, 'text': v.text, 'show': v.show, 'row_hidden': v.row_hidden, 'col_hidden': v.col_hidden,
                                'rowx': v.rowx, 'colx': v.colx, 'runs': plain(v.rich_text_runlist)}
                  for k, v in sh.cell_note_map.items()}
    hl = []
    for h in sh.hyperlink_list:
        d = attrs(h, HL)
        d['url_or_path'] = val(h.url_or_path)
        hl.append(d)
    o['hyperlinks'] = hl
    ids = {id(h): i for i, h in enumerate(sh.hyperlink_list)}
    o['hyperlink_map'] = {'%d,%d' % k: ids.get(id(v), -1) for k, v in sh.hyperlink_map.items()}
    o['hpb'] = plain(sh.horizontal_page_breaks)
    o['vpb'] = plain(sh.vertical_page_breaks)
    o['row_label_ranges'] = plain(sh.row_label_ranges)
    o['col_label_ranges'] = plain(sh.col_label_ranges)
    o['attr'] = attrs(sh, SHEET_FMT_ATTRS)
    return o


def obs_result(r):
    if r is None:
        return None
    v = r.value
    if isinstance(v, list):
        v = [plain(getattr(x, 'coords', None)) if hasattr(x, 'coords') else val(x) for x in v]
    else:
        v = val(v)
    return {'kind': plain(r.kind), 'value': v, 'text': r.text}


def obs_names(bk):
    names = []
    for n in bk.name_obj_list:
        d = attrs(n, NAME)
        d['raw_formula'] = bytes(n.raw_formula).hex()
        d['result'] = obs_result(n.result)
        names.append(d)
    return names


def obs_maps(bk):
    ids = {id(n): i for i, n in enumerate(bk.name_obj_list)}
    return ({k: [ids.get(id(n), -1) for n in v] for k, v in bk.name_map.items()},
            {'%s|%d' % k: ids.get(id(v), -1) for k, v in bk.name_and_scope_map.items()})


def xf20(x):
    b = x.border
    return [x.format_key, x.font_index, x.protection.cell_locked, x.protection.formula_hidden, x.alignment.hor_align] + [
        [getattr(b, n + '_colour_index'), getattr(b, n + '_line_style')] for n in ('left', 'right', 'top', 'bottom')] + [
            [x.background.fill_pattern, x.background.pattern_colour_index, x.background.background_colour_index,
             x.alignment.vert_align, x.alignment.rotation, x.alignment.text_wrapped, x.alignment.text_direction, x.alignment.indent_level]]


def obs_book(bk, fmt):
    o = {'book': attrs(bk, BOOK)}
    o['book']['sheet_names'] = list(bk.sheet_names())
    o['book']['addin_func_names'] = plain(getattr(bk, 'addin_func_names', MISSING))
    o['names'] = obs_names(bk)
    o['name_map'], o['name_and_scope_map'] = obs_maps(bk)
    if fmt:
        o['fonts'] = [attrs(f, FONT) for f in bk.font_list]
        o['formats'] = {str(f.format_key): [f.format_str, int(f.type == 1)] for f in bk.format_list}
        o['format_map'] = {str(k): [f.format_str, f.type] for k, f in bk.format_map.items()}
        xs = []
        for x in bk.xf_list:
            d = attrs(x, XF)
            for part, nm in ((x.border, BORDER), (x.background, BACKGROUND), (x.alignment, ALIGN), (x.protection, PROT)):
                d.update(attrs(part, nm))
            xs.append(d)
        o['xfs'] = xs
        o['styles'] = {k: plain(v) for k, v in bk.style_name_map.items()}
        o['palette'] = plain(bk.palette_record)
        o['colour_map'] = {str(k): plain(v) for k, v in bk.colour_map.items()}
    return o


def snapshot(bk, fmt, sheets=True):
    o = obs_book(bk, fmt)
    if sheets:
        o['sheets'] = [obs_sheet(sh, fmt) for sh in bk.sheets()]
    return o


SUBSET = set(['book', 'attr', 'colour_map'])


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def diff(exp, got, path='', subset=False, out=None, limit=6):
    """Differences exp -> got.  A dict compared as a subset only needs the expected keys."""
    if out is None:
        out = []
    if len(out) >= limit:
        return out
    if isinstance(exp, dict) and isinstance(got, dict):
        for k in exp:
            if k not in got:
                out.append('%s.%s: missing, expected %s' % (path, k, short(exp[k])))
            else:
                diff(exp[k], got[k], path + '.' + str(k), subset=subset, out=out, limit=limit)
            if len(out) >= limit:
                return out
        if not subset:
            for k in got:
                if k not in exp:
                    out.append('%s.%s: unexpected %s' % (path, k, short(got[k])))
                    if len(out) >= limit:
                        return out
    elif isinstance(exp, (list, tuple)) and isinstance(got, (list, tuple)):
        if len(exp) != len(got):
            out.append('%s: length %d, expected %d: %s, expected %s' % (path, len(got), len(exp), short(got), short(exp)))
        else:
            for i, (a, b) in enumerate(zip(exp, got)):
                diff(a, b, '%s[%d]' % (path, i), subset=subset, out=out, limit=limit)
    elif type(exp) is bool or type(got) is bool or exp != got or type(exp) is not type(got):
        if not (exp == got and type(exp) in (int, bool) and type(got) in (int, bool)):
            out.append('%s: %s, expected %s' % (path, short(got), short(exp)))
    return out


EXACT_MAPS = ('cells', 'xf', 'rich', 'rowinfo', 'colinfo', 'notes', 'hyperlink_map', 'formats', 'styles')


def against(exp, got):
    """Compare the reference model's expectation with an observation.  The model lists only the
    attributes it has an opinion on, but says everything about cells, maps and lists."""
    out = []
    diff(exp['book'], got['book'], 'book', subset=True, out=out)
    for key in ('fonts', 'formats', 'format_map', 'xfs', 'styles', 'palette', 'colour_map', 'names'):
        if key in exp:
            diff(exp[key], got[key], key, subset=key in ('fonts', 'format_map', 'xfs', 'names'), out=out)
    if 'sheets' in exp:
        if len(exp['sheets']) != len(got['sheets']):
            out.append('sheets: %d, expected %d' % (len(got['sheets']), len(exp['sheets'])))
        else:
            for i, (a, b) in enumerate(zip(exp['sheets'], got['sheets'])):
                out += against_sheet(a, b, 'sheets[%d]' % i)
    return out


def against_sheet(a, b, path='sheet'):
    out = []
    for k, v in a.items():
        diff(v, b.get(k, MISSING), '%s.%s' % (path, k), subset=(k == 'attr'), out=out)
    return out


def scribble(bk):
    """What a caller may do to a Book of his own: change whatever it shows."""
    def spoil(o, names):
        for n in names:
            try:
                x = getattr(o, n)
            except AttributeError:
                continue
            if isinstance(x, int):
                setattr(o, n, x + 77)
            elif isinstance(x, str):
                setattr(o, n, x + '?')

    def empty(x):
        if isinstance(x, (list, dict)):
            x.clear()
    for x in bk.xf_list:
        spoil(x, XF)
        for part, nm in ((x.border, BORDER), (x.background, BACKGROUND), (x.alignment, ALIGN), (x.protection, PROT)):
            spoil(part, nm)
    for f in bk.font_list:
        spoil(f, FONT)
    for f in list(bk.format_map.values()) + bk.format_list:
        spoil(f, ['format_str', 'type'])
    for n in bk.name_obj_list:
        spoil(n, NAME)
    for k in range(bk.nsheets):
        if bk.sheet_loaded(k):
            s = bk.sheet_by_index(k)
            spoil(s, SHEET_FMT_ATTRS)
            for r in list(s.rowinfo_map.values()):
                spoil(r, ROW)
            for c in list(s.colinfo_map.values()):
                spoil(c, COL)
            for n in list(s.cell_note_map.values()):
                spoil(n, ['author', 'text', 'show'])
                empty(n.rich_text_runlist)
            for x in s.hyperlink_list:
                spoil(x, HL)
            for x in list(s.rich_text_runlist_map.values()):
                empty(x)
            for n in ('rowinfo_map', 'colinfo_map', 'cell_note_map', 'hyperlink_list', 'hyperlink_map', 'rich_text_runlist_map', 'merged_cells',
                      'horizontal_page_breaks', 'vertical_page_breaks', 'row_label_ranges', 'col_label_ranges'):
                empty(getattr(s, n))
    for n in ('name_map', 'name_and_scope_map', 'name_obj_list', 'font_list', 'xf_list', 'format_list', 'format_map', 'style_name_map', 'colour_map',
              'palette_record', 'addin_func_names'):
        x = getattr(bk, n)
        if isinstance(x, dict):
            x['scribble'] = 'scribble'
        elif isinstance(x, list):
            x.append('scribble')
