"""C27: keyword arguments of the Python module.  Each entry is (class, function, names in order): some registration under
that name has to take exactly these keywords (further trailing ones need a default)."""
import pybind

NAMES = (
    ('VoxelKey', '__init__', 'd x y z'),
    ('VoxelKey', '__init__', 'list'),
    ('VoxelKey', 'GetParentAtDepth', 'depth'),
    ('VoxelKey', 'GetParents', 'include_current'),
    ('VoxelKey', 'ChildOf', 'parent_key'),
    ('VoxelKey', 'Resolution', 'las_header copc_header'),
    ('VoxelKey', 'GetResolutionAtDepth', 'depth las_header copc_header'),
    ('Box', '__init__', 'x_min y_min z_min x_max y_max z_max'),
    ('Box', '__init__', 'x_min y_min x_max y_max'),
    ('Box', '__init__', 'min max'),
    ('Box', '__init__', 'list'),
    ('Box', '__init__', 'key las_header'),
    ('Vector3', '__init__', 'x y z'),
    ('Vector3', '__init__', 'list'),
    ('Point', 'ToPointFormat', 'point_format_id'),
    ('Point', 'Within', 'box'),
    ('Points', '__init__', 'point_format_id eb_byte_size'),
    ('Points', '__init__', 'points'),
    ('Points', 'ToPointFormat', 'point_format_id'),
    ('Points', 'Within', 'box'),
    ('Points', 'GetWithin', 'box'),
    ('FileReader', 'FindNode', 'key'),
    ('FileReader', 'GetPointData', 'node'),
    ('FileReader', 'GetPointData', 'key'),
    ('FileReader', 'GetPoints', 'node'),
    ('FileReader', 'GetPoints', 'key'),
    ('FileReader', 'GetPointDataCompressed', 'node'),
    ('FileReader', 'GetPointDataCompressed', 'key'),
    ('FileReader', 'GetAllChildrenOfPage', 'key'),
    ('FileReader', 'GetAllPoints', 'resolution'),
    ('FileReader', 'GetNodesWithinBox', 'box resolution'),
    ('FileReader', 'GetNodesIntersectBox', 'box resolution'),
    ('FileReader', 'GetPointsWithinBox', 'box resolution'),
    ('FileReader', 'GetDepthAtResolution', 'resolution'),
    ('FileReader', 'GetNodesAtResolution', 'resolution'),
    ('FileReader', 'GetNodesWithinResolution', 'resolution'),
    ('FileReader', 'ValidateSpatialBounds', 'verbose'),
    ('FileWriter', '__init__', 'file_path config point_format_id scale offset wkt extra_bytes_vlr has_extended_stats'),
    ('FileWriter', 'AddNode', 'key points page_key'),
    ('FileWriter', 'AddNode', 'key uncompressed_data page_key'),
    ('FileWriter', 'AddNodeCompressed', 'key compressed_data point_count page_key'),
    ('FileWriter', 'ChangeNodePage', 'node_key new_page_key'),
    ('LazReader', '__init__', 'file_path'),
    ('LazWriter', '__init__', 'file_path config'),
    ('LazWriter', 'WritePoints', 'points'),
    ('LazWriter', 'WritePointsCompressed', 'compressed_data point_count'),
    ('', 'CompressBytes', 'in point_format_id eb_byte_size'),
    ('', 'DecompressBytes', 'compressed_data header point_count'),
    ('', 'DecompressBytes', 'compressed_data point_format_id eb_byte_size point_count'),
    ('CopcConfigWriter', '__init__', 'point_format_id scale offset wkt extra_bytes_vlr has_extended_stats'),
    ('LazConfigWriter', '__init__', 'point_format_id scale offset wkt extra_bytes_vlr'),
    ('CopcExtent', '__init__', 'minimum maximum mean var'),
    ('CopcExtent', '__init__', 'list'),
    ('CopcExtents', '__init__', 'point_format_id num_eb_items'),
)


def check(P, res, tier):
    reg = pybind.registry(P)
    for cls, name, words in NAMES:
        words = words.split()
        res.obligations += 1
        xs = [x for k, v in reg.items() if k[0] == cls and k[1] == name for x in v]
        ok = [x for x in xs if x.names[:len(words)] == words and
              all(d is not None for d in x.defaults[len(words):])]
        if ok:
            res.discharged += 1
            continue
        at = ['%s:%d' % x.line for x in xs if x.line]
        res.violations.append({
            'law': 'keywords of %s.%s' % (cls, name), 'obligation': 'accepts the keywords ' + ', '.join(words),
            'where': '', 'case': '', 'got': '; '.join(', '.join(x.names) for x in xs) or 'no such name',
            'required': ', '.join(words), 'constructs': at})
    res.rules.append('keyword arguments: %d signatures' % len(NAMES))
