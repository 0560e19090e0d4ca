#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from props import PROPS

P = []
def prop(id, title, statement, over, text, why, files, mech, **kw):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw)))
NA = {}
NOTE = {}

prop('C01', 'HTML parsing never reads outside the document and always terminates',
     'For every zero-terminated document, parsing it for rewriting reads no byte before its start or after its terminating zero byte, performs no undefined arithmetic, and returns after finitely many steps. Every piece handed to the event receiver lies inside the document.',
     ['inputs'], 'every byte string as document, including ones cut off at any point inside a tag, attribute, comment or script',
     'the tests parse seven well-formed or nearly well-formed documents; a truncation point or odd byte elsewhere is never tried',
     ['src/html_parser.cpp', 'src/html_parser.hpp'],
     [('tests for the zero byte in every scanning loop', 'src/html_parser.cpp: skipName, skipSpace, skipAttribute, tagAttrs, tagEnd, parse_str')])
prop('C02', 'HTML parsing reports the whole document, in order, and nothing else',
     'The events for a document cover it from first to last byte in order: text is reported unchanged, tags, attributes, comments and declarations are reported with their exact names, values and quoting, and no character between two events is lost except the markup characters the event stands for. The result depends on the document alone, not on documents parsed before with the same parser.',
     ['inputs', 'histories'], 'every document, and every sequence of documents given to one parser',
     'the tests compare a handful of documents and use a parser once each; text lost around an unusual construct or state kept between documents is not sampled',
     ['src/html_parser.cpp'], [('text flushed before each construct', 'HTMLParser::Rep::parse_str, tagText'), ('script state', 'HTMLParser::Rep::parse_str')])
prop('C03', 'URL recipes expand exactly as written',
     'Expanding a recipe for a record copies every character outside a placeholder unchanged and replaces each placeholder by the text of the named metadata field (the last one of that type, empty if none), after the optional pattern replacement, and percent-encoded exactly when the percent form of the placeholder is used. It terminates and reads nothing outside the recipe for every recipe, including unterminated placeholders.',
     ['inputs'], 'every recipe text and every record', 'one test with a few recipes; truncated placeholders, escapes, repeated fields and non-ASCII bytes are not among them',
     ['src/url_recipe.cpp'], [('placeholder scanner', 'url_recipe_handle'), ('encoding', 'url_recipe_handle, yaz_encode_uri_component')])
prop('C04', 'Configuration values and elements are read from XML exactly',
     'Reading the text of an element or attribute yields the concatenation of all its own text pieces; reading a boolean or number yields what the text says, and the given default when there is no text. Looking for an element, attribute or next/child element finds exactly the first one with the wanted kind, name and namespace, and reports none when there is none.',
     ['inputs', 'configurations'], 'every XML tree, including empty elements, comments, CDATA, missing namespaces and absent nodes',
     'the tests of the utilities cover one feature; mixed content, missing namespace or missing node are not sampled',
     ['src/xmlutil.cpp'], [('readers', 'xml::get_text, get_bool, get_int'), ('navigation', 'xml::jump_to, jump_to_next, jump_to_children'), ('recognition', 'xml::is_element, is_element_mp, is_attribute')])
prop('C05', 'Unexpected attributes and elements in a configuration are refused',
     'Reading the attributes of an element stores each allowed attribute in its own place, leaves the others empty, and fails with an error if and only if the element has an attribute that is not allowed. The checks for a required element, a required attribute and an element that must be empty fail exactly when the requirement is not met.',
     ['inputs', 'configurations'], 'every element with every set of attributes and children, and every list of allowed names',
     'no test gives the checks an element that violates them in more than one way; names that share a beginning, repeated and namespaced attributes are not sampled',
     ['src/xmlutil.cpp'], [('attribute table', 'xml::parse_attr, get_route'), ('checks', 'xml::check_attribute, check_element_mp, check_empty')])
prop('C06', 'A filter chain hands out its filters in order, once each, per position',
     'A position taken from a chain hands out the filters in the order in which they were added, each exactly once, then nothing, however often it is asked. A copy of a position continues where the original was and neither affects the other; starting or stopping the chain reaches every filter exactly once in order, with the given signal.',
     ['histories', 'inputs'], 'every sequence of additions, position creations, copies, moves and start/stop calls, for chains of every length',
     'the tests that use chains need a library that is not there and walk one chain once',
     ['src/router_chain.cpp', 'include/metaproxy/router_chain.hpp'], [('iterator per position', 'RouterChain::Pos::move, clone'), ('start/stop loops', 'RouterChain::start, stop')])
prop('C07', 'Routing positions follow the configured routes, also after a bad route name',
     'A position in a configured router hands out the filters of the start route in order and then nothing; moving to a named route continues at the first filter of that route; moving to a name that is not a route hands out nothing and leaves the position where it was. Copies are independent; starting or stopping the router reaches the filters of every route.',
     ['histories', 'configurations'], 'every accepted configuration and every sequence of creations, copies and moves with arbitrary route names',
     'the tests only build routers from a configuration; no test moves a position, names an unknown route or copies a position',
     ['src/router_flexml.cpp'], [('route switch', 'RouterFleXML::Pos::move'), ('copy', 'RouterFleXML::Pos::clone'), ('start position', 'RouterFleXML::createpos'), ('start/stop', 'RouterFleXML::start, stop')])
prop('C08', 'Invalid router configurations are refused, valid ones accepted',
     'A configuration is accepted if and only if it has the required structure: a start element, optionally named filters, then routes, with only the allowed attributes and elements, every filter type known, no two filters and no two routes with the same name, and every referenced filter and route defined, the start route included. Anything else fails with an error while loading, never later.',
     ['configurations'], 'every XML document', 'about ten documents are tried by tests that do not build here',
     ['src/router_flexml.cpp', 'src/xmlutil.cpp'], [('structure and attribute checks', 'RouterFleXML::Rep::parse_xml_config_dom, parse_xml_filters, parse_xml_filters1, parse_xml_routes'), ('route references', 'RouterFleXML::Rep::check_routes_in_filters')])
prop('C09', 'Routes contain exactly the configured filters, each configured once',
     'For every accepted configuration, each route holds exactly the filters listed in it, in document order and with nested groups expanded in place; a reference stands for the one shared filter of that name and an inline filter for an instance of its own. Every filter is created with its stated type and configured exactly once, with its own element.',
     ['configurations'], 'every accepted configuration', 'the tests only count created filters for one document',
     ['src/router_flexml.cpp', 'src/factory_filter.cpp'], [('filter table', 'RouterFleXML::Rep::parse_xml_filters'), ('route lists', 'RouterFleXML::Rep::parse_xml_filters1, parse_xml_routes')])
prop('C10', 'The filter factory maps each type name to its first registered creator',
     'A type name is known exactly when it has been registered and not dropped since; registering it again reports failure and changes nothing, dropping it reports whether it was known. Creating calls exactly the creator registered for that name once and returns its result, and fails with an error for a name that is not known.',
     ['histories'], 'every sequence of registrations, removals, queries and creations with arbitrary names', 'the tests register and create two filters in one fixed order',
     ['src/factory_filter.cpp'], [('name table', 'FactoryFilter::add_creator, drop_creator, exist, create')])
prop('C11', 'Session identifiers are unique under concurrency and survive copying',
     'No two sessions ever created in a process have the same identifier, whatever threads create them; a copy or assignment has the identifier and closed mark of its source, and a closed session stays closed. A per-session table finds an entry exactly between its creation and its release, and every access to the shared counter and table happens under its lock.',
     ['schedules', 'histories'], 'every interleaving of session creations and table operations by any number of threads',
     'the session tests run one schedule of a few threads; a lost update needs a particular interleaving',
     ['include/metaproxy/session.hpp', 'src/session.cpp'], [('locked counter', 'Session::Session'), ('locked table', 'session_map')])
prop('C12', 'Client, forwarded and listening addresses are told apart',
     'After a connection is recorded with its peer and listening address, those two are what is reported as client and listening address, however many forwarded-for addresses are added later; the reported forwarded address is the first of the most recently added ones, or the peer if none was added. Copies, the connection number, socket limit and custom session name are kept unchanged.',
     ['inputs', 'histories'], 'every address text and every number of forwarded-for additions', 'no test sets an address',
     ['src/origin.cpp', 'include/metaproxy/origin.hpp'], [('address list', 'Origin::set_tcpip_address'), ('selection', 'Origin::get_address, get_bind_address, get_forward_address')])

HERE = os.path.dirname(os.path.abspath(__file__))
for extra in sorted(os.listdir(HERE)):
    if extra.startswith('more_') and extra.endswith('.py'):
        exec(open(os.path.join(HERE, extra)).read())

TECH = 'contract-based deductive verification (vcx: obligations generated from the clang AST of /repo on every run, discharged by z3; cvc5 cross-check in thorough)'
with open(V + '/properties.jsonl', 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
checks, na = [], []
for p in P:
    i = p['id']
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s quick' % i, thorough_cmd='python3-vt check.py %s thorough' % i,
                           technique=PROPS[i].get('technique', TECH), level=PROPS[i].get('level', 'proof'),
                           level_note=PROPS[i].get('note', 'every obligation of every function under contract is discharged for all inputs; assumed: the library contracts listed in the evidence file. A replay harness on the real code searches a failing input and stands in (bounded) for a function that cannot be translated after a change.')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check yet')))
m = dict(version=1, setup_cmd='python3-vt -c "import z3, sys; sys.path.insert(0, \'.\'); import props"', checks=checks, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
