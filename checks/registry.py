"""What decides each property: contract modules (units) + exploration."""
import json
from contracts import cache as _cache
OBJ = 'object protocols of user objects (in, [], getattr, call) are pure ' \
      'and deterministic between two questions'
NOT_APPLICABLE = {}
CHECKS = {
    'C01': {'units': [('contracts.namemapper', None)],
            'note': 'Python lookup functions proved for all names, search lists and objects; the C twin and whole templates by bounded run-time contracts here (C part proved under C03)',
            'assumptions': [OBJ]},
    'C02': {'units': [('contracts.namemapper', [
                'NameMapper._isInstanceOrClass', 'NameMapper._valueForName',
                'NameMapper.valueForName', 'NameMapper.valueFromSearchList',
                'NameMapper.valueFromFrameOrSearchList']),
                      ('contracts.expr', [
                          'Compiler.genCheetahVar',
                          'Parser.getCheetahVarNameChunks'])],
            'note': 'autocall decision and one-call-per-component proved for the Python lookup; code generator flags and C twin by bounded run-time contracts',
            'assumptions': [OBJ]},
    'C09': {'units': [('contracts.cache', _cache.REGION_NAMES)], 
            'note': 'store, region and item proved for arbitrary contents, clock readings and expiry values; generated code of #cache proved for its shapes; templates by bounded run-time contracts',
            'assumptions': ['md5 and the random region ids are collision free',
                            'time.time() never goes backwards between two readings',
                            'varyBy values are told apart by str()',
                            'a custom cacheStore obeys the contract proved of MemoryCacheStore (C10)']},
    'C10': {'units': [('contracts.cache', _cache.STORE_NAMES)], 
            'note': 'MemoryCacheStore proved for arbitrary contents and an arbitrary other key; operation histories by bounded run-time contracts',
            'assumptions': ['keys hash and compare consistently',
                            'time.time() never goes backwards',
                            'the memcached client behind MemcachedCacheStore is outside of the property']},
    'C11': {'units': [('contracts.settings', None)], 
            'note': 'merging proved for an arbitrary key of arbitrary dictionaries, with aliasing; configuration readers and whole compilations by bounded run-time contracts',
            'assumptions': ['iterating a dictionary visits each key once',
                            'deepcopy/copy give new containers of equal content']},
    'C12': {'units': [('contracts.compiling', ['Template.compile (cache)', 'Template._cacheKeyOf'])], 
            'note': 'cache key and cache use proved for arbitrary options; which options change the result by bounded run-time contracts (cached against uncached compilation)',
            'assumptions': ['md5/hash of the key text is collision free',
                            'a file with the same path and time has the same content',
                            'the compiler is a function of its options (deterministic)']},
    'C16': {'units': [('contracts.compiling', ['Template.compile (every failure point)'])], 
            'note': 'every failure point of Template.compile proved; schedules and concurrent compilations by bounded run-time contracts',
            'assumptions': ['callees modify only what their frame says (sys.modules entry, cache, linecache)',
                            'threading.Lock and the GIL as documented']},
    'C07': {'units': [('contracts.regions', None)], 
            'note': 'generated code of every ordered pair of region kinds proved for arbitrary texts and filters; deeper nestings by induction (stated in contracts/regions.py), and by bounded run-time contracts',
            'assumptions': ['a body depends on a region only through the output state it is given (the induction step is by hand)',
                            "filters are functions of value and text, filter('') == '' for text",
                            'pairs stand for every depth']},
    'C03': {'units': [('contracts.cnamemapper', None)], 
            'note': 'every path of _namemapper.c: reference balance, error state and NULL, against contracts of the CPython API; agreement with the Python mapper by bounded differential run-time contracts',
            'assumptions': ['reference counts do not overflow',
                            'what user objects do during a call does not change the borrowed arguments']},
    'C13': {'units': [('contracts.expr', None)], 
            'note': "generation of lookups, name chunks, assignment and scanning steps proved; the value of whole expressions by bounded run-time contracts against Python's own evaluation",
            'assumptions': ["regular expressions of the parser are matched as by Python's re (uninterpreted results with their documented ranges)"]},
    'C14': {'units': [('contracts.gate', None)], 
            'note': 'every eat method proved over all outcomes of scanning: gate before effect, hooks before the compiler sees an expression; generated code by bounded run-time contracts',
            'assumptions': ['scanning functions consume input and return the expression they read',
                            'hooks are arbitrary, but return a text']},
    'C15': {'units': [('contracts.wrapper', None)], 
            'note': 'destination, backup and write order proved for arbitrary paths; directory walks, collisions and --parallel by bounded run-time contracts on scratch directories',
            'assumptions': ['POSIX os.path; no symbolic links among sources and destinations',
                            'no other process changes the files meanwhile']},
    'C04': {'units': [('contracts.literal', None)], 
            'note': 'taking, collecting and writing out literal text proved for arbitrary texts; whole templates by bounded run-time contracts',
            'assumptions': ["repr() of a text evaluates to that text (Python's guarantee)",
                            "a chunk's text reaches the output through write() only (generated code, bounded)"]},
    'C05': {'units': [('contracts.sourcereader', None)], 
            'note': 'row and column of every position of every text proved, incl. report assembly; which position the parser reports by bounded run-time contracts',
            'assumptions': ['bisect and str.find as documented (contracts in contracts/sourcereader.py)']},
    'C06': {'units': [('contracts.nesting', None), ('contracts.opening', None)], 
            'note': 'stack discipline of the open directives proved for arbitrary stacks, every eat method that opens, continues or closes a block proved against the nesting of the generated code, parse() by a loop invariant; acceptance of whole templates by bounded run-time contracts against a separate grammar',
            'assumptions': ['the directive table maps each name to its eat method (bounded: exploration)', 'the stacks around an eat method are represented by the top name and whether a def is open']},
    'C08': {'units': [('contracts.filters', None)], 
            'note': 'filters and HTML encoding proved for texts of any length (homomorphism domain); decoding and #filter use by bounded run-time contracts',
            'assumptions': ['str.replace and str.encode as documented',
                            'str() of a value is what the filter is given']},
}
for _p in json.loads('["C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C16"]'):
    if _p not in CHECKS:
        NOT_APPLICABLE[_p] = 'check under construction'

