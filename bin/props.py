# what every check runs; n = (quick, thorough)
def T(maker, spec, n, **kw):
    return dict(kind='trace', maker=maker, spec=spec, n=n, **kw)
def M(spec, cfg, **kw):
    return dict(kind='model', spec=spec, cfg=cfg, **kw)
def B(gen, gencfg, maker, spec, **kw):
    return dict(kind='behaviours', gen=gen, gencfg=gencfg, maker=maker, spec=spec, **kw)

PROPS = {
 'R01': dict(stages=[M('Derive', ('DeriveS', 'DeriveL')), T('R01', 'MatchTrace', (16000, 200000), nonzero=['verdict fixed', 'valid']), B('GrammarGen', ('GrammarGenS', 'GrammarGenL'), 'R01small', 'SmallTrace', nonzero=['valid', 'not valid'])]),
 'R02': dict(stages=[T('R02', 'MatchTrace', (8000, 100000), nonzero=['verdict fixed', 'valid']),
                     T('R02auto', 'MatchTrace', (3000, 30000), nonzero=['verdict fixed', 'valid']), B('GrammarGen', ('GrammarGenS', 'GrammarGenL'), 'R02small', 'SmallTrace', nonzero=['valid', 'not valid'])]),
 'R03': dict(stages=[T('R03', 'MatchTrace', (8000, 100000), nonzero=['verdict fixed', 'valid', 'read error']), B('GrammarGen', ('GrammarGenS', 'GrammarGenL'), 'R03small', 'SmallTrace', nonzero=['valid', 'not valid'])]),
 'R04': dict(stages=[T('R04', 'MatchTrace', (8000, 100000), nonzero=['verdict fixed', 'valid']), B('GrammarGen', ('GrammarGenS', 'GrammarGenL'), 'R04small', 'SmallTrace', nonzero=['valid', 'not valid'])]),
 'R05': dict(stages=[T('R05', 'SimplifyTrace', (4000, 60000), nonzero=['compared trees', 'valid']), B('GrammarGen', ('GrammarGenS', 'GrammarGenL'), 'R05small', 'SmallTrace', nonzero=['valid', 'not valid']), B('GrammarGen', ('GrammarGenS', 'GrammarGenL'), 'R05smallrec', 'SmallTrace', nonzero=['valid', 'not valid'])]),
 'R06': dict(stages=[T('R06', 'MatchTrace', (6000, 100000), nonzero=['verdict fixed', 'valid'])]),
 'R07': dict(stages=[T('R07', 'ClientTrace', (6000, 60000), nonzero=['calls', 'failed runs', 'completed runs'])]),
 'R08': dict(stages=[T('R08', 'GrammarTrace', (20000, 200000), nonzero=['left recursive', 'not left recursive', 'undefined or no main', 'nullable', 'verdicts'])]),
 'F01': dict(stages=[T('F01', 'FuncTrace', (20000, 300000), nonzero=['values', 'errors', 'true'])]),
 'F03': dict(stages=[T('F03', 'TypeTrace', (20000, 300000), nonzero=['well typed', 'ill typed', 'open'])]),
 'F02': dict(stages=[T('F02', 'FuncTrace', (20000, 300000), nonzero=['values', 'true'])]),

 'F04': dict(stages=[T('F04', 'OrderTrace', (16000, 250000), nonzero=['equal pairs', 'colliding pairs', 'different pairs'])]),
 'F05': dict(stages=[T('F05', 'FuncTrace', (16000, 250000), nonzero=['values', 'errors', 'true'])]),
 'F06': dict(stages=[T('F06', 'ContextTrace', (12000, 150000), nonzero=['true', 'false', 'open (a condition fails)'])]),
 'A01': dict(stages=[T('A01', 'SyntaxTrace', (16000, 250000), nonzero=['accepted', 'refused'])]),
 'A02': dict(stages=[T('A02', 'FormatTrace', (8000, 120000), nonzero=['formatted', 'with comments'])]),
 'A03': dict(stages=[T('A03', 'AstTrace', (16000, 250000), nonzero=['triples', 'first two equal', 'first two different'])]),
 'A04': dict(stages=[T('A04', 'CombTrace', (6000, 100000), nonzero=['valid', 'not valid'])]),
 'F07': dict(stages=[T('F07', 'UserTrace', (6000, 90000), nonzero=['registered', 'refused', 'accepted expressions', 'ill typed expressions', 'values', 'errors', 'true'])]),
 'A07': dict(stages=[T('A07', 'LexTrace', (8000, 120000), nonzero=['accepted', 'refused', 'lenient', 'no token'])]),
 'A06': dict(stages=[T('A06', 'CommentTrace', (8000, 120000), nonzero=['texts', 'with comments', 'attached'])]),
 'A05': dict(stages=[T('A05', 'StoredTrace', (5500, 120000), nonzero=['written', 'read', 'refused'])]),
 'P01': dict(stages=[T('P01', 'JsonTrace', (8000, 120000), nonzero=['documents walked', 'next calls', 'accessor calls']), B('CursorGen', ('CursorGen4', 'CursorGen5'), 'json', 'JsonTrace', env={'FORMAT': 'json'}, nonzero=['documents walked', 'next calls', 'accessor calls'])]),
 'P02': dict(stages=[T('P02', 'JsonTrace', (8000, 120000), nonzero=['malformed documents walked', 'documents walked'])]),
 'P03': dict(stages=[T('P03', 'ProtoTrace', (8000, 120000), nonzero=['documents walked', 'next calls', 'accessor calls']), B('CursorGen', ('CursorGen3', 'CursorGen4'), 'proto', 'ProtoTrace', env={'FORMAT': 'proto'}, nonzero=['documents walked', 'next calls', 'accessor calls'])]),
 'P04': dict(stages=[T('P04', 'ProtoTrace', (8000, 120000), nonzero=['malformed documents walked', 'documents walked'])]),
 'P05': dict(stages=[T('P05', 'ProtoTrace', (8000, 120000), nonzero=['nothing to merge', 'something to merge'])]),
 'P06': dict(stages=[T('P06', 'ReflectTrace', (8000, 120000), nonzero=['documents walked', 'next calls', 'accessor calls']), B('CursorGen', ('CursorGen4', 'CursorGen5'), 'reflect', 'ReflectTrace', env={'FORMAT': 'reflect'}, nonzero=['documents walked', 'next calls', 'accessor calls'])]),
 'P07': dict(stages=[T('P07', 'XmlTrace', (8000, 120000), nonzero=['documents walked', 'next calls', 'accessor calls']), B('CursorGen', ('CursorGen3', 'CursorGen4'), 'xml', 'XmlTrace', env={'FORMAT': 'xml'}, nonzero=['documents walked', 'next calls', 'accessor calls'])]),
 'P08': dict(stages=[T('P08', 'XmlTrace', (8000, 120000), nonzero=['malformed documents walked', 'documents walked'])]),
 'P09': dict(stages=[T('P09', 'YamlTrace', (8000, 120000), nonzero=['documents walked', 'next calls', 'accessor calls']), T('P09junk', 'YamlTrace', (3000, 60000), nonzero=['documents walked']), B('CursorGen', ('CursorGen3', 'CursorGen4'), 'yaml', 'YamlTrace', env={'FORMAT': 'yaml'}, nonzero=['documents walked', 'next calls', 'accessor calls'])]),
 'E01': dict(stages=[T('E01', 'JsonEncTrace', (16000, 250000), nonzero=['read errors', 'encoded', 'cannot be encoded'])]),
 'E02': dict(stages=[T('E02', 'XmlEncTrace', (16000, 250000), nonzero=['read errors', 'encoded', 'cannot be encoded'])]),
 'E03': dict(stages=[T('E03', 'ProtoEncTrace', (12000, 200000), nonzero=['read errors', 'encoded', 'cannot be encoded'])]),
 'E04': dict(stages=[T('E04', 'ReflectEncTrace', (12000, 200000), nonzero=['read errors', 'encoded', 'cannot be encoded'])]),
 'R09': dict(stages=[T('R09', 'EndTrace', (4000, 80000), nonzero=['valid', 'not valid', 'valid json', 'valid xml', 'valid yaml', 'valid reflect', 'valid proto'])]),
 'N01': dict(stages=[T('N01', 'NameTrace', (12000, 200000), nonzero=['true', 'false', 'names of functions'])]),
 'D01': dict(stages=[T('D01', 'DebugTrace', (8000, 100000), nonzero=['walks', 'random walks', 'printed values', 'logged runs'])]),
 'S01': dict(stages=[T('S01', 'SetsTrace', (6000, 100000), nonzero=['bits', 'increments', 'comparisons', 'kept', 'lookups', 'additions', 'zips'])]),
}
