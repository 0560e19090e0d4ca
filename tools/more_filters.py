prop('C13', 'A package visits the filters of its route one by one, with its own position',
     'Moving a package on hands it, the same object, to exactly the next filter of its route (the first filter of the named route if a route is named), once, and to none when the route is at its end or the package has no position. A package given a router stands at its start; one copied from another stands where the other is, independently of it, the other being left as it was; positions no longer used are given up exactly once. Session, request and response stay the same objects; what was logged in a package and its copies is delivered once.',
     ['histories', 'inputs'], 'every sequence of router, copy, move and log operations on any number of packages', 'the tests of packages need a library that is not there and walk one chain once; copies of packages without a position or of itself are not tried',
     ['src/package.cpp', 'include/metaproxy/package.hpp'], [('moving on', 'Package::move (both forms)'), ('copying the position', 'Package::copy_route, copy_filter'), ('start', 'Package::router'), ('log text', 'Package::log_write, log_reset')])
prop('C18', 'A present request answered in chunks delivers the records asked for, in order',
     'With a chunk size configured, a present request goes on in parts no larger than that, each starting after the records received so far, for the same session and route and otherwise unchanged, until all records asked for are there or the back end has no more. The response then carries the records received, all of them, in order, never more than asked for, with matching counts and the reference id of the request. A diagnostic or other answer of the back end is passed on as it is, a closed session is closed. Any other request is passed on once.',
     ['inputs', 'faults'], 'every present request and chunk size, every sequence of back end answers, short, empty, oversized or failing', 'no test runs the filter; back ends that run out, return more than asked or fail midway are not tried',
     ['src/filter_present_chunk.cpp'], [('loop over parts', 'PresentChunk::Impl::chunk_it'), ('selection of requests', 'PresentChunk::Impl::process')])
prop('C19', 'Only registered users and permitted databases or targets get past auth_simple',
     'With a user register, an init goes on exactly if the user and password it carries are in the register, and the user is remembered for that session alone; a search or scan of a session with a known user goes on exactly if each of its databases is allowed to that user (names compare without case, * allows all). With only a target register, an init goes on to exactly the targets authorised for its user: with any other target it is refused, or, if unauthorised targets are to be discarded, goes on without them, and is refused when none is left. A refusal answers the request with the reason, naming the database or target, and closes the session. Everything else is passed on once. Sessions served at the same time do not disturb each other.',
     ['inputs', 'histories', 'schedules'], 'every register, request and sequence of requests, every interleaving of sessions', 'the filter is not built by the tests and no test refuses a request or runs sessions in parallel',
     ['src/filter_auth_simple.cpp'], [('credentials', 'get_user, AuthSimple::process_init'), ('databases', 'contains, AuthSimple::process_search, process_scan'), ('targets', 'AuthSimple::check_targets'), ('register lines', 'split_db')])
