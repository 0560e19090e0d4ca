"""property -> functions under contract (spec module, names or None for all),
which obligation kinds belong to it, and its replay harness"""
import re
HTML = dict(src='html.cpp', repo=['src/html_parser.cpp'])
XML = dict(src='xmlutil.cpp', repo=['src/xmlutil.cpp'])
ROUTER = dict(src='router.cpp', repo=['src/router_flexml.cpp', 'src/router_chain.cpp', 'src/factory_filter.cpp', 'src/filter.cpp', 'src/xmlutil.cpp'])
SAFE = lambda o: o['kind'] in ('safety', 'term', 'inv')
FUNC = lambda o: o['kind'] not in ('safety', 'term')
WHAT = r'^(defines exactly|each |appends exactly|configures |no element configures|the filter is of|test flag|every filter created|the filter created before)'
CONTENT = lambda o: not re.match(r'^(accepts only|refuses only)', o['name'])
ACCEPT = lambda o: not re.match(WHAT, o['name'])
X = 'metaproxy_1::xml::'
U, O = 'metaproxy_1::util::', 'metaproxy_1::odr::'
UTIL = dict(src='util.cpp', stubs=['gdu.cpp'], repo=['src/util.cpp', 'src/package.cpp', 'src/session.cpp', 'src/origin.cpp', 'src/filter.cpp'])

PKGSRC = ['src/package.cpp', 'src/session.cpp', 'src/origin.cpp', 'src/router_chain.cpp', 'src/filter.cpp', 'src/util.cpp', 'src/xmlutil.cpp']
FILT = lambda mode, nm, **k: dict(dict(src='filters.cpp', stubs=['gdu.cpp'], repo=PKGSRC + (['src/filter_%s.cpp' % nm] if nm else []), defs=['-DH_' + nm.upper()] if nm else [], mode=mode, secs=10), **k)

PROPS = {
    'C01': dict(specs=[('html', None)], kinds=SAFE, harness=dict(HTML, mode='safety')),
    'C02': dict(specs=[('html', None)], kinds=FUNC, harness=dict(HTML, mode='events')),
    'C03': dict(specs=[('url_recipe', None)], budget=600, harness=dict(src='url_recipe.cpp', repo=['src/url_recipe.cpp', 'src/xmlutil.cpp'], libs=['-lyaz', '-lxml2', '-lboost_regex'])),
    'C04': dict(specs=[('xmlutil', [X + n for n in ('get_text', 'get_bool', 'get_int', 'is_element', 'is_element_mp', 'is_attribute', 'jump_to', 'jump_to_next', 'jump_to_children')])],
                harness=dict(XML, mode='read')),
    'C05': dict(specs=[('xmlutil', [X + n for n in ('check_attribute', 'check_element_mp', 'check_empty', 'parse_attr', 'get_route', 'is_attribute', 'is_element', 'is_element_mp')])],
                harness=dict(XML, mode='config')),
    'C06': dict(specs=[('chain', None)], harness=dict(ROUTER, mode='chain', secs=10)),
    'C07': dict(specs=[('flexml', None)], harness=dict(ROUTER, mode='position', secs=12)),
    'C08': dict(specs=[('flexconf', None)], kinds=ACCEPT, harness=dict(ROUTER, mode='config', secs=15)),
    'C09': dict(specs=[('flexconf', None)], kinds=CONTENT, harness=dict(ROUTER, mode='build', secs=15)),
    'C10': dict(specs=[('factory', None)], harness=dict(src='factory.cpp', repo=['src/factory_filter.cpp', 'src/filter.cpp'], libs=['-rdynamic', '-lyaz', '-lxml2', '-ldl'], secs=12)),
    'C11': dict(specs=[('session', None)], harness=[dict(src='session.cpp', repo=['src/session.cpp'], mode='seq', secs=10),
                                                    dict(src='session.cpp', repo=['src/session.cpp'], mode='threads', secs=12, san='thread', libs=['-lyaz', '-lxml2', '-lpthread'])]),
    'C12': dict(specs=[('origin', None)], harness=dict(src='origin.cpp', repo=['src/origin.cpp'], secs=10)),
    'C14': dict(specs=[('zutil', [U + n for n in ('record_composition_to_esn', 'piggyback', 'piggyback_sr', 'piggyback_to_RecordComposition')])], harness=dict(UTIL, mode='piggy', secs=10)),
    'C15': dict(specs=[('zutil', [U + n for n in ('get_referenceId', 'transfer_referenceId', 'create_APDU', 'get_default_diag')] + [O + 'create_' + n for n in ('searchResponse', 'presentResponse', 'initResponse', 'scanResponse', 'close')])],
                harness=dict(UTIL, mode='ref', secs=10)),
    'C16': dict(specs=[('zutil', [U + 'http_header_value', U + 'http_response', O + 'create_HTTP_Response', O + 'create_HTTP_Response_details'])], harness=dict(UTIL, mode='http', secs=10)),
    'C17': dict(specs=[('zutil', [U + n for n in ('database_name_normalize', 'match', 'memcmp2', 'split_zurl', 'match_ip', 'get_or_remove_vhost_otherinfo', 'set_vhost_otherinfo', 'set_databases_from_zurl')])], harness=dict(UTIL, mode='text', secs=12)),
    'C13': dict(specs=[('package', None)], harness=FILT('pkg', '')),
    'C19': dict(specs=[('authsimple', None)], harness=[FILT('auth', 'auth_simple'), FILT('auththreads', 'auth_simple', secs=6, san='thread', libs=['-lyaz', '-lxml2', '-lpthread'])]),
    'C18': dict(specs=[('pchunk', None)], harness=FILT('chunk', 'present_chunk')),
}
