from . import rules_phys, rules_write, rules_funcs, rules_nodes, rules_index, rules_flow, rules_build, rules_alias, rules_data, rules_spec, rules_io, rules_parse, rules_mpi, rules_errors, rules_deps, rules_names, rules_owner, rules_dates, rules_ports, rules_request, rules_tables, rules_library, rules_graph, rules_writer, rules_writing, rules_follow, rules_sources, rules_arrays, rules_functions, rules_running, rules_described  # noqa: F401
