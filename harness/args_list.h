// Every runtime option: type, field, flag or option, its name on the command line, section and label in a YAML file.
#define VT_ARGS(X) \
  X(S, vt_input_config_yaml, 0, "--vt_input_config_yaml", "", "") \
  X(B, vt_color, 1, "--vt_color", "Output Control", "Color") \
  X(B, vt_no_color, 1, "--vt_no_color", "Output Control", "No Color") \
  X(B, vt_quiet, 1, "--vt_quiet", "Output Control", "Quiet") \
  X(I, vt_sched_num_progress, 0, "--vt_sched_num_progress", "Scheduler Configuration", "Num Progress Times") \
  X(I, vt_sched_progress_han, 0, "--vt_sched_progress_han", "Scheduler Configuration", "Progress Handlers") \
  X(D, vt_sched_progress_sec, 0, "--vt_sched_progress_sec", "Scheduler Configuration", "Progress Seconds") \
  X(B, vt_no_sigint, 1, "--vt_no_SIGINT", "Signal Handling", "Disable SIGINT") \
  X(B, vt_no_sigsegv, 1, "--vt_no_SIGSEGV", "Signal Handling", "Disable SIGSEGV") \
  X(B, vt_no_sigbus, 1, "--vt_no_SIGBUS", "Signal Handling", "Disable SIGBUS") \
  X(B, vt_no_terminate, 1, "--vt_no_terminate", "Signal Handling", "Disable Terminate Signal") \
  X(S, vt_memory_reporters, 0, "--vt_memory_reporters", "Memory Usage Reporting", "Memory Reporters") \
  X(B, vt_print_memory_each_phase, 1, "--vt_print_memory_each_phase", "Memory Usage Reporting", "Print Memory Each Phase") \
  X(S, vt_print_memory_node, 0, "--vt_print_memory_node", "Memory Usage Reporting", "Print Memory On Node") \
  X(B, vt_allow_memory_report_with_ps, 1, "--vt_allow_memory_report_with_ps", "Memory Usage Reporting", "Allow Memory Report With ps") \
  X(B, vt_print_memory_at_threshold, 1, "--vt_print_memory_at_threshold", "", "") \
  X(S, vt_print_memory_threshold, 0, "--vt_print_memory_threshold", "Memory Usage Reporting", "Print Memory Threshold") \
  X(I, vt_print_memory_sched_poll, 0, "--vt_print_memory_sched_poll", "Memory Usage Reporting", "Print Memory Scheduler Poll") \
  X(B, vt_print_memory_footprint, 1, "--vt_print_memory_footprint", "Memory Usage Reporting", "Print Memory Footprint") \
  X(B, vt_no_warn_stack, 1, "--vt_no_warn_stack", "Dump Stack Backtrace", "Enable Stack Output on Warning") \
  X(B, vt_no_assert_stack, 1, "--vt_no_assert_stack", "Dump Stack Backtrace", "Enable Stack Output on Assert") \
  X(B, vt_no_abort_stack, 1, "--vt_no_abort_stack", "Dump Stack Backtrace", "Enable Stack Output on Abort") \
  X(B, vt_no_stack, 1, "--vt_no_stack", "Dump Stack Backtrace", "Enable Stack Output") \
  X(S, vt_stack_file, 0, "--vt_stack_file", "Dump Stack Backtrace", "File") \
  X(S, vt_stack_dir, 0, "--vt_stack_dir", "Dump Stack Backtrace", "Directory") \
  X(I, vt_stack_mod, 0, "--vt_stack_mod", "Dump Stack Backtrace", "Output Rank Mod") \
  X(B, vt_trace, 1, "--vt_trace", "Tracing Configuration", "Enabled") \
  X(B, vt_trace_sys_all, 1, "--vt_trace_sys_all", "Tracing Configuration", "Include All System Events") \
  X(B, vt_trace_sys_term, 1, "--vt_trace_sys_term", "Tracing Configuration", "Include Termination Events") \
  X(B, vt_trace_sys_location, 1, "--vt_trace_sys_location", "Tracing Configuration", "Include Location Events") \
  X(B, vt_trace_sys_collection, 1, "--vt_trace_sys_collection", "Tracing Configuration", "Include Collection Events") \
  X(B, vt_trace_sys_serial_msg, 1, "--vt_trace_sys_serial_msg", "Tracing Configuration", "Include Message Serialization Events") \
  X(S, vt_trace_file, 0, "--vt_trace_file", "Tracing Configuration", "File") \
  X(S, vt_trace_dir, 0, "--vt_trace_dir", "Tracing Configuration", "Directory") \
  X(I, vt_trace_mod, 0, "--vt_trace_mod", "Tracing Configuration", "Output Rank Mod") \
  X(I, vt_trace_flush_size, 0, "--vt_trace_flush_size", "Tracing Configuration", "Flush Size") \
  X(B, vt_trace_gzip_finish_flush, 1, "--vt_trace_gzip_finish_flush", "Tracing Configuration", "GZip Finish Flush") \
  X(B, vt_trace_spec, 1, "--vt_trace_spec", "Tracing Configuration", "Specification Enabled") \
  X(S, vt_trace_spec_file, 0, "--vt_trace_spec_file", "Tracing Configuration", "Spec File") \
  X(B, vt_trace_memory_usage, 1, "--vt_trace_memory_usage", "Tracing Configuration", "Memory Usage") \
  X(B, vt_trace_event_polling, 1, "--vt_trace_event_polling", "Tracing Configuration", "Event Polling") \
  X(B, vt_trace_irecv_polling, 1, "--vt_trace_irecv_polling", "Tracing Configuration", "IRecv Polling") \
  X(B, vt_lb, 1, "--vt_lb", "Load Balancing", "Enabled") \
  X(B, vt_lb_show_config, 1, "--vt_lb_show_config", "Load Balancing", "Show Configuration") \
  X(B, vt_lb_quiet, 1, "--vt_lb_quiet", "Load Balancing", "Quiet") \
  X(S, vt_lb_file_name, 0, "--vt_lb_file_name", "Load Balancing", "File") \
  X(S, vt_lb_name, 0, "--vt_lb_name", "Load Balancing", "Name") \
  X(S, vt_lb_args, 0, "--vt_lb_args", "Load Balancing", "Arguments") \
  X(I, vt_lb_interval, 0, "--vt_lb_interval", "Load Balancing", "Interval") \
  X(B, vt_lb_keep_last_elm, 1, "--vt_lb_keep_last_elm", "Load Balancing", "Keep Last Element") \
  X(B, vt_lb_data, 1, "--vt_lb_data", "Load Balancing/LB Data Output", "Enabled") \
  X(B, vt_lb_data_compress, 1, "--vt_lb_data_compress", "Load Balancing/LB Data Input", "Enable Compression") \
  X(B, vt_lb_data_in, 1, "--vt_lb_data_in", "Load Balancing/LB Data Input", "Enabled") \
  X(S, vt_lb_data_dir, 0, "--vt_lb_data_dir", "Load Balancing/LB Data Output", "Directory") \
  X(S, vt_lb_data_file, 0, "--vt_lb_data_file", "Load Balancing/LB Data Output", "File") \
  X(S, vt_lb_data_dir_in, 0, "--vt_lb_data_dir_in", "Load Balancing/LB Data Input", "Directory") \
  X(S, vt_lb_data_file_in, 0, "--vt_lb_data_file_in", "Load Balancing/LB Data Input", "File") \
  X(B, vt_lb_statistics, 1, "--vt_lb_statistics", "Load Balancing/LB Statistics", "Enabled") \
  X(B, vt_lb_statistics_compress, 1, "--vt_lb_statistics_compress", "Load Balancing/LB Statistics", "Enable Compression") \
  X(S, vt_lb_statistics_file, 0, "--vt_lb_statistics_file", "Load Balancing/LB Statistics", "File") \
  X(S, vt_lb_statistics_dir, 0, "--vt_lb_statistics_dir", "Load Balancing/LB Statistics", "Directory") \
  X(L, vt_lb_statistics_freq, 0, "--vt_lb_statistics_freq", "Load Balancing/LB Statistics", "Frequency") \
  X(B, vt_help_lb_args, 1, "--vt_help_lb_args", "", "") \
  X(B, vt_lb_self_migration, 1, "--vt_lb_self_migration", "Load Balancing", "Enable Self Migration") \
  X(B, vt_lb_spec, 1, "--vt_lb_spec", "Load Balancing", "Enable Specification") \
  X(S, vt_lb_spec_file, 0, "--vt_lb_spec_file", "Load Balancing", "Specification File") \
  X(B, vt_lb_run_lb_first_phase, 1, "--vt_lb_run_lb_first_phase", "", "") \
  X(B, vt_no_detect_hang, 1, "--vt_no_detect_hang", "Termination", "No Detect Hangs") \
  X(B, vt_print_no_progress, 0, "--vt_print_no_progress", "Termination", "Print No Progress") \
  X(B, vt_epoch_graph_on_hang, 0, "--vt_epoch_graph_on_hang", "Termination", "Output Epoch Graph on Hang") \
  X(B, vt_epoch_graph_terse, 1, "--vt_epoch_graph_terse", "Termination", "Terse Epoch Graph Output") \
  X(B, vt_term_rooted_use_ds, 1, "--vt_term_rooted_use_ds", "Termination", "Use DS for Rooted") \
  X(B, vt_term_rooted_use_wave, 1, "--vt_term_rooted_use_wave", "Termination", "Use Wave for Rooted") \
  X(L, vt_hang_freq, 0, "--vt_hang_freq", "Termination", "Hang Check Frequency") \
  X(B, vt_diag_enable, 1, "--vt_diag_enable", "Diagnostics", "Enabled") \
  X(B, vt_diag_print_summary, 1, "--vt_diag_print_summary", "Diagnostics", "Enable Print Summary") \
  X(S, vt_diag_summary_csv_file, 0, "--vt_diag_summary_csv_file", "Diagnostics", "Summary CSV File") \
  X(S, vt_diag_summary_file, 0, "--vt_diag_summary_file", "Diagnostics", "Summary File") \
  X(B, vt_diag_csv_base_units, 1, "--vt_diag_csv_base_units", "Diagnostics", "Use CSV Base Units") \
  X(B, vt_pause, 1, "--vt_pause", "Launch", "Pause") \
  X(B, vt_no_assert_fail, 1, "--vt_no_assert_fail", "Runtime", "Disable Assert Failure") \
  X(B, vt_throw_on_abort, 1, "--vt_throw_on_abort", "Runtime", "Throw on Abort") \
  X(Z, vt_max_mpi_send_size, 0, "--vt_max_mpi_send_size", "Runtime", "Max MPI Send Size") \
  X(S, vt_debug_level, 0, "--vt_debug_level", "Debug Print Configuration", "Level") \
  X(B, vt_debug_all, 1, "--vt_debug_all", "Debug Print Configuration", "Enable All") \
  X(B, vt_debug_none, 1, "--vt_debug_none", "Debug Print Configuration", "Disable All") \
  X(B, vt_debug_gen, 1, "--vt_debug_gen", "Debug Print Configuration/Enable", "gen") \
  X(B, vt_debug_runtime, 1, "--vt_debug_runtime", "Debug Print Configuration/Enable", "runtime") \
  X(B, vt_debug_active, 1, "--vt_debug_active", "Debug Print Configuration/Enable", "active") \
  X(B, vt_debug_term, 1, "--vt_debug_term", "Debug Print Configuration/Enable", "term") \
  X(B, vt_debug_termds, 1, "--vt_debug_termds", "Debug Print Configuration/Enable", "termds") \
  X(B, vt_debug_barrier, 1, "--vt_debug_barrier", "Debug Print Configuration/Enable", "barrier") \
  X(B, vt_debug_event, 1, "--vt_debug_event", "Debug Print Configuration/Enable", "event") \
  X(B, vt_debug_pipe, 1, "--vt_debug_pipe", "Debug Print Configuration/Enable", "pipe") \
  X(B, vt_debug_pool, 1, "--vt_debug_pool", "Debug Print Configuration/Enable", "pool") \
  X(B, vt_debug_reduce, 1, "--vt_debug_reduce", "Debug Print Configuration/Enable", "reduce") \
  X(B, vt_debug_rdma, 1, "--vt_debug_rdma", "Debug Print Configuration/Enable", "rdma") \
  X(B, vt_debug_rdma_channel, 1, "--vt_debug_rdma_channel", "Debug Print Configuration/Enable", "rdma_channel") \
  X(B, vt_debug_rdma_state, 1, "--vt_debug_rdma_state", "Debug Print Configuration/Enable", "rdma_state") \
  X(B, vt_debug_handler, 1, "--vt_debug_handler", "Debug Print Configuration/Enable", "handler") \
  X(B, vt_debug_hierlb, 1, "--vt_debug_hierlb", "Debug Print Configuration/Enable", "hierlb") \
  X(B, vt_debug_temperedlb, 1, "--vt_debug_temperedlb", "Debug Print Configuration/Enable", "temperedlb") \
  X(B, vt_debug_temperedwmin, 1, "--vt_debug_temperedwmin", "Debug Print Configuration/Enable", "temperedwmin") \
  X(B, vt_debug_scatter, 1, "--vt_debug_scatter", "Debug Print Configuration/Enable", "scatter") \
  X(B, vt_debug_serial_msg, 1, "--vt_debug_serial_msg", "Debug Print Configuration/Enable", "serial_msg") \
  X(B, vt_debug_trace, 1, "--vt_debug_trace", "Debug Print Configuration/Enable", "trace") \
  X(B, vt_debug_location, 1, "--vt_debug_location", "Debug Print Configuration/Enable", "location") \
  X(B, vt_debug_lb, 1, "--vt_debug_lb", "Debug Print Configuration/Enable", "lb") \
  X(B, vt_debug_vrt, 1, "--vt_debug_vrt", "Debug Print Configuration/Enable", "vrt") \
  X(B, vt_debug_vrt_coll, 1, "--vt_debug_vrt_coll", "Debug Print Configuration/Enable", "vrt_coll") \
  X(B, vt_debug_worker, 1, "--vt_debug_worker", "Debug Print Configuration/Enable", "worker") \
  X(B, vt_debug_group, 1, "--vt_debug_group", "Debug Print Configuration/Enable", "group") \
  X(B, vt_debug_broadcast, 1, "--vt_debug_broadcast", "Debug Print Configuration/Enable", "broadcast") \
  X(B, vt_debug_objgroup, 1, "--vt_debug_objgroup", "Debug Print Configuration/Enable", "objgroup") \
  X(B, vt_debug_phase, 1, "--vt_debug_phase", "Debug Print Configuration/Enable", "phase") \
  X(B, vt_debug_context, 1, "--vt_debug_context", "Debug Print Configuration/Enable", "context") \
  X(B, vt_debug_epoch, 1, "--vt_debug_epoch", "Debug Print Configuration/Enable", "epoch") \
  X(B, vt_debug_replay, 1, "--vt_debug_replay", "Debug Print Configuration", "Debug Replay") \
  X(B, vt_debug_print_flush, 1, "--vt_debug_print_flush", "Debug Print Configuration", "Debug Print Flush") \
  X(B, vt_tv, 1, "--vt_tv", "Visualization", "Enabled") \
  X(S, vt_tv_config_file, 0, "--vt_tv_config_file", "Visualization", "Configuration File") \
  X(B, vt_user_1, 1, "--vt_user_1", "", "") \
  X(B, vt_user_2, 1, "--vt_user_2", "", "") \
  X(B, vt_user_3, 1, "--vt_user_3", "", "") \
  X(I, vt_user_int_1, 0, "--vt_user_int_1", "", "") \
  X(I, vt_user_int_2, 0, "--vt_user_int_2", "", "") \
  X(I, vt_user_int_3, 0, "--vt_user_int_3", "", "") \
  X(S, vt_user_str_1, 0, "--vt_user_str_1", "", "") \
  X(S, vt_user_str_2, 0, "--vt_user_str_2", "", "") \
  X(S, vt_user_str_3, 0, "--vt_user_str_3", "", "") \
  X(B, vt_output_config, 1, "--vt_output_config", "Configuration File", "Enable Output Config") \
  X(S, vt_output_config_file, 0, "--vt_output_config_file", "Configuration File", "File") \

