"""Text that looks like something else: SQL, JSON, CSV, selectors, numbers, wildcards."""

VALUES = [
    "it's", "''", "'; DROP TABLE main.node_index; --", '"', 'say "hi"', '""', '`', '[x]', ']',
    'a,b', ',', ';', 'line\nbreak', '\n', 'cr\rx', 'crlf\r\nx', 'tab\tx', ' lead', 'trail ', ' ', '  ',
    'NULL', 'None', 'null', 'nan', 'inf', '1', '01', '1.0', '1e3', '-1', '+1', '0x1', '0', 'true', 'TRUE',
    '%', '_', 'a%b', 'a_b', '*', '?', '[a-z]', '[a]', '{"a": 1}', '{}', '[]', '$.a', '$', '\\', 'a\\b',
    '\\n', '\\u0041', "\\'", 'é', 'e\u0301', '漢字', '😀', '\u200b', '\ufeffbom', 'ß', 'ss', 'SS', 'İ', 'ı', 'i',
    'a', 'A', '--', '/* c */', ':name', '?1', '@x', '#', '!', '=', '==', '<>', 'x' * 300, '\x1f', '\x7f',
    '\u2028', '\x85', '\x0b', 'select', 'index_id', 'value', 'rowid', '0X00000000', '1XDEADBEEF',
    '9' * 30 + 'X1', '-1X1', 'X', '1X', '=1+1', '- ', ' -', '--', '\u2212', '(', ')', '||', "a' OR '1'='1",
    'TOTAL', 'é' * 50, '.', '..', '/', '~', '&amp;', '<b>', '%s', '{0}', '{x}', '%(a)s', '\U0001F468\u200D\U0001F469',
    '\u202Eabc', '\u0000x'[1:], 'a\u0000b', '\u0000', 'Ａ', '١', '1,000', '1_0', 'infinity', '1e400',
]

NAMES = [
    "it's", 'say "hi"', 'a b', ' lead', 'trail ', 'a,b', 'a;b', 'a.b', 'a-b', 'a%b', 'a_b', '%', '*', '?',
    '[x]', '{x}', '(x)', 'x)', '$.a', '$', '\\', 'a\\b', 'a/b', 'é', 'e\u0301', '漢字', '😀', 'select', 'SELECT',
    'group', 'order', 'index', 'table', 'from', 'where', 'null', 'NULL', 'and', 'rowid', 'oid', '_rowid_',
    '1', '01', '1.5', '0', '-1', 'tab\tx', 'line\nbreak', 'cr\rx', '--', '/* c */', ':name', '?1', '@x', '#',
    '==', '||', "x'; DROP TABLE main.node_index; --", 'x" TEXT); --', '`', '``', '""', "''", 'weight',
    'mapping', 'location', 'main', 'main.node_index', 'node_index', 'node_index_id', 'cat', 'NEW', 'NEW.x',
    'x' * 200, '\u200b', 'true', 'key', 'self', 'name', 'description', 'property', 'id', 'labels', 'A', 'a',
    'criteria', 'data', 'columns', 'header', 'space_or_ref', 'link_name', '{0}', '%s', '%(a)s', '\x1f', '\x85',
    '\u2028', 'ß', 'İ', 'ı', 'Ａ', 'no_index', 'index id', 'Index_Id', 'INDEX_ID', 'Value', 'VALUE', 'Domain',
]
