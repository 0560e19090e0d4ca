prop('C14', 'Piggyback limits decide how many records a search returns, and in which form',
     'A search response carries all records of a set smaller than the small set bound, none of a set larger than the large set bound, and otherwise the medium number but never more than the set has; the element set is the one the request names for that size of set. The element set of a record composition is recognised in its simple and complex forms and reported as absent otherwise.',
     ['inputs'], 'every combination of the three limits, set size and element set names', 'no test covers the limits; equal bounds, negative or very large numbers and missing names are not sampled',
     ['src/util.cpp'], [('size limits', 'util::piggyback (both forms)'), ('request members', 'util::piggyback_sr, piggyback_to_RecordComposition'), ('element set name', 'util::record_composition_to_esn')])
prop('C15', 'Responses carry the request\'s reference id and exactly the error given',
     'A response or close built for a request has the reference id of the request byte for byte (none if the request has none), is of the kind asked for, and its status, diagnostic code and additional text are those given: failure with that diagnostic if there is an error, success without diagnostic if not. The request is left unchanged. This holds for every kind of request.',
     ['inputs'], 'every kind of request and response, every reference id including empty and binary ones, every error code and text', 'tests look at the responses of a few filters to requests without reference id',
     ['src/util.cpp'], [('place of the reference id', 'util::get_referenceId'), ('copying', 'util::transfer_referenceId, create_APDU'), ('responses', 'odr::create_initResponse, create_searchResponse, create_presentResponse, create_scanResponse, create_close'), ('reading back', 'util::get_default_diag')])
prop('C16', 'HTTP responses keep or close the connection as the client asked',
     'An HTTP response has the code asked for and the version of the request; the connection is announced as kept, and the session left open, exactly if the client\'s version and Connection header ask for that, otherwise the session is closed. The body of a response is exactly the content given. Looking up a header yields the value of the first header with exactly that name, empty if there is none.',
     ['inputs'], 'every request version, every list of headers, every response content', 'no test covers HTTP responses; the combinations of version and header are not sampled',
     ['src/util.cpp'], [('keep or close', 'odr::create_HTTP_Response, create_HTTP_Response_details'), ('body', 'util::http_response'), ('headers', 'util::http_header_value')])
prop('C17', 'Database names, target addresses and IP patterns are matched and split exactly',
     'Two lists of database names match exactly if they have the same length and each pair is equal up to the case of A to Z. A target address is split into host and database names at the separators, none lost or altered. An address matches an IP pattern exactly if one of its blank separated items matches it (items without colon also match an IPv4 address in IPv6 notation) or the pattern has no items. Virtual hosts of a request are listed and removed completely and in order; comparing byte ranges orders by content, then length.',
     ['inputs'], 'every pair of lists, every address and pattern, every number of virtual hosts', 'the tests cover one or two names; differing lengths, empty parts and mapped addresses are not sampled',
     ['src/util.cpp'], [('names', 'util::database_name_normalize, match'), ('addresses', 'util::split_zurl, match_ip'), ('virtual hosts', 'util::get_or_remove_vhost_otherinfo'), ('bytes', 'util::memcmp2')])
