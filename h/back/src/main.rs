mod vm;
mod exec;
mod progs;
mod run;
symrt::entry! { vm::h_op, vm::h_codec, vm::h_decode, exec::h_basic, progs::h_felt_op, progs::h_u32_op, progs::h_felt_expr, progs::h_u32_expr, progs::h_bool_expr, progs::h_stmts, progs::h_stmts_u32, progs::h_aggr, progs::h_aggr_par, progs::h_array_aggr, progs::h_literal, progs::h_literal_context, progs::h_misc, progs::h_recursion, progs::h_effects, progs::h_new, progs::h_array, progs::h_call, run::h_memory, run::h_run, run::h_trace_files, run::h_abi, run::h_abi_wrong, run::h_felt_arg, run::h_cli, run::h_cli_parts, run::h_json }
