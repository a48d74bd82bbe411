{"accept_after_max_steps", 'I', 1, -1, 0, 0, 0, 0, -1, "", {}},
{"accept_every_trial_step", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"acceptable_compl_inf_tol", 'N', 1, 0, 1, 0, 0, 0, 0.01, "", {}},
{"acceptable_constr_viol_tol", 'N', 1, 0, 1, 0, 0, 0, 0.01, "", {}},
{"acceptable_dual_inf_tol", 'N', 1, 0, 1, 0, 0, 0, 10000000000, "", {}},
{"acceptable_iter", 'I', 1, 0, 0, 0, 0, 0, 15, "", {}},
{"acceptable_obj_change_tol", 'N', 1, 0, 0, 0, 0, 0, 1e+20, "", {}},
{"acceptable_tol", 'N', 1, 0, 1, 0, 0, 0, 9.9999999999999995e-07, "", {}},
{"adaptive_mu_globalization", 'S', 0, 0, 0, 0, 0, 0, 0, "obj-constr-filter", {"kkt-error", "obj-constr-filter", "never-monotone-mode", }},
{"adaptive_mu_kkt_norm_type", 'S', 0, 0, 0, 0, 0, 0, 0, "2-norm-squared", {"1-norm", "2-norm-squared", "max-norm", "2-norm", }},
{"adaptive_mu_kkterror_red_fact", 'N', 1, 0, 1, 1, 1, 1, 0.99990000000000001, "", {}},
{"adaptive_mu_kkterror_red_iters", 'I', 1, 0, 0, 0, 0, 0, 4, "", {}},
{"adaptive_mu_monotone_init_factor", 'N', 1, 0, 1, 0, 0, 0, 0.80000000000000004, "", {}},
{"adaptive_mu_restore_previous_iterate", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"adaptive_mu_safeguard_factor", 'N', 1, 0, 0, 0, 0, 0, 0, "", {}},
{"alpha_for_y", 'S', 0, 0, 0, 0, 0, 0, 0, "primal", {"primal", "bound-mult", "min", "max", "full", "min-dual-infeas", "safer-min-dual-infeas", "primal-and-full", "dual-and-full", "acceptor", }},
{"alpha_for_y_tol", 'N', 1, 0, 0, 0, 0, 0, 10, "", {}},
{"alpha_min_frac", 'N', 1, 0, 1, 1, 1, 1, 0.050000000000000003, "", {}},
{"alpha_red_factor", 'N', 1, 0, 1, 1, 1, 1, 0.5, "", {}},
{"barrier_tol_factor", 'N', 1, 0, 1, 0, 0, 0, 10, "", {}},
{"bound_frac", 'N', 1, 0, 1, 1, 0.5, 0, 0.01, "", {}},
{"bound_mult_init_method", 'S', 0, 0, 0, 0, 0, 0, 0, "constant", {"constant", "mu-based", }},
{"bound_mult_init_val", 'N', 1, 0, 1, 0, 0, 0, 1, "", {}},
{"bound_mult_reset_threshold", 'N', 1, 0, 0, 0, 0, 0, 1000, "", {}},
{"bound_push", 'N', 1, 0, 1, 0, 0, 0, 0.01, "", {}},
{"bound_relax_factor", 'N', 1, 0, 0, 0, 0, 0, 1e-08, "", {}},
{"check_derivatives_for_naninf", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"chi_cup", 'N', 1, 0, 1, 0, 0, 0, 1.5, "", {}},
{"chi_hat", 'N', 1, 0, 1, 0, 0, 0, 2, "", {}},
{"chi_tilde", 'N', 1, 0, 1, 0, 0, 0, 5, "", {}},
{"compl_inf_tol", 'N', 1, 0, 1, 0, 0, 0, 0.0001, "", {}},
{"constr_mult_init_max", 'N', 1, 0, 0, 0, 0, 0, 1000, "", {}},
{"constr_mult_reset_threshold", 'N', 1, 0, 0, 0, 0, 0, 0, "", {}},
{"constr_viol_tol", 'N', 1, 0, 1, 0, 0, 0, 0.0001, "", {}},
{"constraint_violation_norm_type", 'S', 0, 0, 0, 0, 0, 0, 0, "1-norm", {"1-norm", "2-norm", "max-norm", }},
{"corrector_compl_avrg_red_fact", 'N', 1, 0, 1, 0, 0, 0, 1, "", {}},
{"corrector_type", 'S', 0, 0, 0, 0, 0, 0, 0, "none", {"none", "affine", "primal-dual", }},
{"delta", 'N', 1, 0, 1, 0, 0, 0, 1, "", {}},
{"delta_y_max", 'N', 1, 0, 1, 0, 0, 0, 1000000000000, "", {}},
{"dependency_detection_with_rhs", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"dependency_detector", 'S', 0, 0, 0, 0, 0, 0, 0, "none", {"none", "mumps", }},
{"derivative_test", 'S', 0, 0, 0, 0, 0, 0, 0, "none", {"none", "first-order", "second-order", "only-second-order", }},
{"derivative_test_first_index", 'I', 1, -2, 0, 0, 0, 0, -2, "", {}},
{"derivative_test_perturbation", 'N', 1, 0, 1, 0, 0, 0, 1e-08, "", {}},
{"derivative_test_print_all", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"derivative_test_tol", 'N', 1, 0, 1, 0, 0, 0, 0.0001, "", {}},
{"diverging_iterates_tol", 'N', 1, 0, 1, 0, 0, 0, 1e+20, "", {}},
{"dual_inf_tol", 'N', 1, 0, 1, 0, 0, 0, 1, "", {}},
{"epsilon_c", 'N', 1, 0, 1, 0, 0, 0, 0.01, "", {}},
{"eta_min", 'N', 1, 0, 1, 0, 0, 0, 10, "", {}},
{"eta_penalty", 'N', 1, 0, 1, 1, 0.5, 1, 1e-08, "", {}},
{"eta_phi", 'N', 1, 0, 1, 1, 0.5, 1, 1e-08, "", {}},
{"evaluate_orig_obj_at_resto_trial", 'S', 0, 0, 0, 0, 0, 0, 0, "yes", {"yes", "no", }},
{"expect_infeasible_problem", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"expect_infeasible_problem_ctol", 'N', 1, 0, 0, 0, 0, 0, 0.001, "", {}},
{"expect_infeasible_problem_ytol", 'N', 1, 0, 1, 0, 0, 0, 100000000, "", {}},
{"fast_des_fact", 'N', 1, 0, 1, 0, 0, 0, 0.10000000000000001, "", {}},
{"fast_step_computation", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"file_append", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"file_print_level", 'I', 1, 0, 0, 1, 12, 0, 5, "", {}},
{"filter_margin_fact", 'N', 1, 0, 1, 1, 1, 1, 1.0000000000000001e-05, "", {}},
{"filter_max_margin", 'N', 1, 0, 1, 0, 0, 0, 1, "", {}},
{"filter_reset_trigger", 'I', 1, 1, 0, 0, 0, 0, 5, "", {}},
{"findiff_perturbation", 'N', 1, 0, 1, 0, 0, 0, 9.9999999999999995e-08, "", {}},
{"first_hessian_perturbation", 'N', 1, 0, 1, 0, 0, 0, 0.0001, "", {}},
{"fixed_mu_oracle", 'S', 0, 0, 0, 0, 0, 0, 0, "average_compl", {"probing", "loqo", "quality-function", "average_compl", }},
{"fixed_variable_treatment", 'S', 0, 0, 0, 0, 0, 0, 0, "make_parameter", {"make_parameter", "make_parameter_nodual", "make_constraint", "relax_bounds", }},
{"gamma_hat", 'N', 1, 0, 1, 0, 0, 0, 0.040000000000000001, "", {}},
{"gamma_phi", 'N', 1, 0, 1, 1, 1, 1, 1e-08, "", {}},
{"gamma_theta", 'N', 1, 0, 1, 1, 1, 1, 1.0000000000000001e-05, "", {}},
{"gamma_tilde", 'N', 1, 0, 1, 0, 0, 0, 4, "", {}},
{"grad_f_constant", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"gradient_approximation", 'S', 0, 0, 0, 0, 0, 0, 0, "exact", {"exact", "finite-difference-values", }},
{"hessian_approximation", 'S', 0, 0, 0, 0, 0, 0, 0, "exact", {"exact", "limited-memory", }},
{"hessian_approximation_space", 'S', 0, 0, 0, 0, 0, 0, 0, "nonlinear-variables", {"nonlinear-variables", "all-variables", }},
{"hessian_constant", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"honor_original_bounds", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"hsllib", 'S', 0, 0, 0, 0, 0, 0, 0, "libhsl.so", {"*", }},
{"inf_pr_output", 'S', 0, 0, 0, 0, 0, 0, 0, "original", {"internal", "original", }},
{"jac_c_constant", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"jac_d_constant", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"jacobian_approximation", 'S', 0, 0, 0, 0, 0, 0, 0, "exact", {"exact", "finite-difference-values", }},
{"jacobian_regularization_exponent", 'N', 1, 0, 0, 0, 0, 0, 0.25, "", {}},
{"jacobian_regularization_value", 'N', 1, 0, 0, 0, 0, 0, 1e-08, "", {}},
{"kappa_d", 'N', 1, 0, 0, 0, 0, 0, 1.0000000000000001e-05, "", {}},
{"kappa_sigma", 'N', 1, 0, 1, 0, 0, 0, 10000000000, "", {}},
{"kappa_soc", 'N', 1, 0, 1, 0, 0, 0, 0.98999999999999999, "", {}},
{"kappa_x_dis", 'N', 1, 0, 1, 0, 0, 0, 100, "", {}},
{"kappa_y_dis", 'N', 1, 0, 1, 0, 0, 0, 10000, "", {}},
{"least_square_init_duals", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"no", "yes", }},
{"least_square_init_primal", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"no", "yes", }},
{"limited_memory_aug_solver", 'S', 0, 0, 0, 0, 0, 0, 0, "sherman-morrison", {"sherman-morrison", "extended", }},
{"limited_memory_init_val", 'N', 1, 0, 1, 0, 0, 0, 1, "", {}},
{"limited_memory_init_val_max", 'N', 1, 0, 1, 0, 0, 0, 100000000, "", {}},
{"limited_memory_init_val_min", 'N', 1, 0, 1, 0, 0, 0, 1e-08, "", {}},
{"limited_memory_initialization", 'S', 0, 0, 0, 0, 0, 0, 0, "scalar1", {"scalar1", "scalar2", "scalar3", "scalar4", "constant", }},
{"limited_memory_max_history", 'I', 1, 0, 0, 0, 0, 0, 6, "", {}},
{"limited_memory_max_skipping", 'I', 1, 1, 0, 0, 0, 0, 2, "", {}},
{"limited_memory_special_for_resto", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"limited_memory_update_type", 'S', 0, 0, 0, 0, 0, 0, 0, "bfgs", {"bfgs", "sr1", }},
{"line_search_method", 'S', 0, 0, 0, 0, 0, 0, 0, "filter", {"filter", "cg-penalty", "penalty", }},
{"linear_scaling_on_demand", 'S', 0, 0, 0, 0, 0, 0, 0, "yes", {"yes", "no", }},
{"linear_solver", 'S', 0, 0, 0, 0, 0, 0, 0, "mumps", {"ma27", "ma57", "ma77", "ma86", "ma97", "pardiso", "mumps", "custom", }},
{"linear_system_scaling", 'S', 0, 0, 0, 0, 0, 0, 0, "none", {"none", "mc19", "slack-based", }},
{"ma27_ignore_singularity", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"ma27_la_init_factor", 'N', 1, 1, 0, 0, 0, 0, 5, "", {}},
{"ma27_liw_init_factor", 'N', 1, 1, 0, 0, 0, 0, 5, "", {}},
{"ma27_meminc_factor", 'N', 1, 1, 0, 0, 0, 0, 2, "", {}},
{"ma27_pivtol", 'N', 1, 0, 1, 1, 1, 1, 1e-08, "", {}},
{"ma27_pivtolmax", 'N', 1, 0, 1, 1, 1, 1, 0.0001, "", {}},
{"ma27_print_level", 'I', 1, 0, 0, 1, 4, 0, 0, "", {}},
{"ma27_skip_inertia_check", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"ma57_automatic_scaling", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"ma57_block_size", 'I', 1, 1, 0, 0, 0, 0, 16, "", {}},
{"ma57_node_amalgamation", 'I', 1, 1, 0, 0, 0, 0, 16, "", {}},
{"ma57_pivot_order", 'I', 1, 0, 0, 1, 5, 0, 5, "", {}},
{"ma57_pivtol", 'N', 1, 0, 1, 1, 1, 1, 1e-08, "", {}},
{"ma57_pivtolmax", 'N', 1, 0, 1, 1, 1, 1, 0.0001, "", {}},
{"ma57_pre_alloc", 'N', 1, 1, 0, 0, 0, 0, 1.05, "", {}},
{"ma57_print_level", 'I', 1, 0, 0, 0, 0, 0, 0, "", {}},
{"ma57_small_pivot_flag", 'I', 1, 0, 0, 1, 1, 0, 0, "", {}},
{"ma77_buffer_lpage", 'I', 1, 1, 0, 0, 0, 0, 4096, "", {}},
{"ma77_buffer_npage", 'I', 1, 1, 0, 0, 0, 0, 1600, "", {}},
{"ma77_file_size", 'I', 1, 1, 0, 0, 0, 0, 2097152, "", {}},
{"ma77_maxstore", 'I', 1, 0, 0, 0, 0, 0, 0, "", {}},
{"ma77_nemin", 'I', 1, 1, 0, 0, 0, 0, 8, "", {}},
{"ma77_order", 'S', 0, 0, 0, 0, 0, 0, 0, "amd", {"amd", "metis", }},
{"ma77_print_level", 'I', 0, 0, 0, 0, 0, 0, -1, "", {}},
{"ma77_small", 'N', 1, 0, 0, 0, 0, 0, 9.9999999999999995e-21, "", {}},
{"ma77_static", 'N', 1, 0, 0, 0, 0, 0, 0, "", {}},
{"ma77_u", 'N', 1, 0, 0, 1, 0.5, 0, 1e-08, "", {}},
{"ma77_umax", 'N', 1, 0, 0, 1, 0.5, 0, 0.0001, "", {}},
{"ma86_nemin", 'I', 1, 1, 0, 0, 0, 0, 32, "", {}},
{"ma86_order", 'S', 0, 0, 0, 0, 0, 0, 0, "amd", {"auto", "amd", "metis", }},
{"ma86_print_level", 'I', 0, 0, 0, 0, 0, 0, -1, "", {}},
{"ma86_scaling", 'S', 0, 0, 0, 0, 0, 0, 0, "mc64", {"none", "mc64", "mc77", }},
{"ma86_small", 'N', 1, 0, 0, 0, 0, 0, 9.9999999999999995e-21, "", {}},
{"ma86_static", 'N', 1, 0, 0, 0, 0, 0, 0, "", {}},
{"ma86_u", 'N', 1, 0, 0, 1, 0.5, 0, 1e-08, "", {}},
{"ma86_umax", 'N', 1, 0, 0, 1, 0.5, 0, 0.0001, "", {}},
{"ma97_nemin", 'I', 1, 1, 0, 0, 0, 0, 8, "", {}},
{"ma97_order", 'S', 0, 0, 0, 0, 0, 0, 0, "auto", {"auto", "best", "amd", "metis", "matched-auto", "matched-metis", "matched-amd", }},
{"ma97_print_level", 'I', 0, 0, 0, 0, 0, 0, -1, "", {}},
{"ma97_scaling", 'S', 0, 0, 0, 0, 0, 0, 0, "dynamic", {"none", "mc30", "mc64", "mc77", "dynamic", }},
{"ma97_scaling1", 'S', 0, 0, 0, 0, 0, 0, 0, "mc64", {"none", "mc30", "mc64", "mc77", }},
{"ma97_scaling2", 'S', 0, 0, 0, 0, 0, 0, 0, "mc64", {"none", "mc30", "mc64", "mc77", }},
{"ma97_scaling3", 'S', 0, 0, 0, 0, 0, 0, 0, "mc64", {"none", "mc30", "mc64", "mc77", }},
{"ma97_small", 'N', 1, 0, 0, 0, 0, 0, 9.9999999999999995e-21, "", {}},
{"ma97_solve_blas3", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"no", "yes", }},
{"ma97_switch1", 'S', 0, 0, 0, 0, 0, 0, 0, "od_hd_reuse", {"never", "at_start", "at_start_reuse", "on_demand", "on_demand_reuse", "high_delay", "high_delay_reuse", "od_hd", "od_hd_reuse", }},
{"ma97_switch2", 'S', 0, 0, 0, 0, 0, 0, 0, "never", {"never", "at_start", "at_start_reuse", "on_demand", "on_demand_reuse", "high_delay", "high_delay_reuse", "od_hd", "od_hd_reuse", }},
{"ma97_switch3", 'S', 0, 0, 0, 0, 0, 0, 0, "never", {"never", "at_start", "at_start_reuse", "on_demand", "on_demand_reuse", "high_delay", "high_delay_reuse", "od_hd", "od_hd_reuse", }},
{"ma97_u", 'N', 1, 0, 0, 1, 0.5, 0, 1e-08, "", {}},
{"ma97_umax", 'N', 1, 0, 0, 1, 0.5, 0, 0.0001, "", {}},
{"magic_steps", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"max_cpu_time", 'N', 1, 0, 1, 0, 0, 0, 1e+20, "", {}},
{"max_filter_resets", 'I', 1, 0, 0, 0, 0, 0, 5, "", {}},
{"max_hessian_perturbation", 'N', 1, 0, 1, 0, 0, 0, 1e+20, "", {}},
{"max_iter", 'I', 1, 0, 0, 0, 0, 0, 3000, "", {}},
{"max_refinement_steps", 'I', 1, 0, 0, 0, 0, 0, 10, "", {}},
{"max_resto_iter", 'I', 1, 0, 0, 0, 0, 0, 3000000, "", {}},
{"max_soc", 'I', 1, 0, 0, 0, 0, 0, 4, "", {}},
{"max_soft_resto_iters", 'I', 1, 0, 0, 0, 0, 0, 10, "", {}},
{"max_wall_time", 'N', 1, 0, 1, 0, 0, 0, 1e+20, "", {}},
{"mehrotra_algorithm", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"min_alpha_primal", 'N', 1, 0, 1, 0, 0, 0, 1e-13, "", {}},
{"min_hessian_perturbation", 'N', 1, 0, 0, 0, 0, 0, 9.9999999999999995e-21, "", {}},
{"min_refinement_steps", 'I', 1, 0, 0, 0, 0, 0, 1, "", {}},
{"mu_allow_fast_monotone_decrease", 'S', 0, 0, 0, 0, 0, 0, 0, "yes", {"no", "yes", }},
{"mu_init", 'N', 1, 0, 1, 0, 0, 0, 0.10000000000000001, "", {}},
{"mu_linear_decrease_factor", 'N', 1, 0, 1, 1, 1, 1, 0.20000000000000001, "", {}},
{"mu_max", 'N', 1, 0, 1, 0, 0, 0, 100000, "", {}},
{"mu_max_fact", 'N', 1, 0, 1, 0, 0, 0, 1000, "", {}},
{"mu_min", 'N', 1, 0, 1, 0, 0, 0, 9.9999999999999994e-12, "", {}},
{"mu_oracle", 'S', 0, 0, 0, 0, 0, 0, 0, "quality-function", {"probing", "loqo", "quality-function", }},
{"mu_strategy", 'S', 0, 0, 0, 0, 0, 0, 0, "monotone", {"monotone", "adaptive", }},
{"mu_superlinear_decrease_power", 'N', 1, 1, 1, 1, 2, 1, 1.5, "", {}},
{"mu_target", 'N', 1, 0, 0, 0, 0, 0, 0, "", {}},
{"mult_diverg_feasibility_tol", 'N', 1, 0, 1, 0, 0, 0, 9.9999999999999995e-08, "", {}},
{"mult_diverg_y_tol", 'N', 1, 0, 1, 0, 0, 0, 100000000, "", {}},
{"mumps_dep_tol", 'N', 0, 0, 0, 0, 0, 0, 0, "", {}},
{"mumps_mem_percent", 'I', 1, 0, 0, 0, 0, 0, 1000, "", {}},
{"mumps_permuting_scaling", 'I', 1, 0, 0, 1, 7, 0, 7, "", {}},
{"mumps_pivot_order", 'I', 1, 0, 0, 1, 7, 0, 7, "", {}},
{"mumps_pivtol", 'N', 1, 0, 0, 1, 1, 0, 9.9999999999999995e-07, "", {}},
{"mumps_pivtolmax", 'N', 1, 0, 0, 1, 1, 0, 0.10000000000000001, "", {}},
{"mumps_print_level", 'I', 1, 0, 0, 0, 0, 0, 0, "", {}},
{"mumps_scaling", 'I', 1, -2, 0, 1, 77, 0, 77, "", {}},
{"neg_curv_test_reg", 'S', 0, 0, 0, 0, 0, 0, 0, "yes", {"yes", "no", }},
{"neg_curv_test_tol", 'N', 1, 0, 0, 0, 0, 0, 0, "", {}},
{"never_use_fact_cgpen_direction", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"never_use_piecewise_penalty_ls", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"nlp_lower_bound_inf", 'N', 0, 0, 0, 0, 0, 0, -1e+19, "", {}},
{"nlp_scaling_constr_target_gradient", 'N', 1, 0, 0, 0, 0, 0, 0, "", {}},
{"nlp_scaling_max_gradient", 'N', 1, 0, 1, 0, 0, 0, 100, "", {}},
{"nlp_scaling_method", 'S', 0, 0, 0, 0, 0, 0, 0, "gradient-based", {"none", "user-scaling", "gradient-based", "equilibration-based", }},
{"nlp_scaling_min_value", 'N', 1, 0, 0, 0, 0, 0, 1e-08, "", {}},
{"nlp_scaling_obj_target_gradient", 'N', 1, 0, 0, 0, 0, 0, 0, "", {}},
{"nlp_upper_bound_inf", 'N', 0, 0, 0, 0, 0, 0, 1e+19, "", {}},
{"nu_inc", 'N', 1, 0, 1, 0, 0, 0, 0.0001, "", {}},
{"nu_init", 'N', 1, 0, 1, 0, 0, 0, 9.9999999999999995e-07, "", {}},
{"num_linear_variables", 'I', 1, 0, 0, 0, 0, 0, 0, "", {}},
{"obj_max_inc", 'N', 1, 1, 1, 0, 0, 0, 5, "", {}},
{"obj_scaling_factor", 'N', 0, 0, 0, 0, 0, 0, 1, "", {}},
{"option_file_name", 'S', 0, 0, 0, 0, 0, 0, 0, "ipopt.opt", {"*", }},
{"output_file", 'S', 0, 0, 0, 0, 0, 0, 0, "", {"*", }},
{"pardiso_iter_coarse_size", 'I', 1, 1, 0, 0, 0, 0, 5000, "", {}},
{"pardiso_iter_dropping_factor", 'N', 1, 0, 1, 1, 1, 1, 0.5, "", {}},
{"pardiso_iter_dropping_schur", 'N', 1, 0, 1, 1, 1, 1, 0.10000000000000001, "", {}},
{"pardiso_iter_inverse_norm_factor", 'N', 1, 1, 1, 0, 0, 0, 5000000, "", {}},
{"pardiso_iter_max_levels", 'I', 1, 1, 0, 0, 0, 0, 10, "", {}},
{"pardiso_iter_max_row_fill", 'I', 1, 1, 0, 0, 0, 0, 10000000, "", {}},
{"pardiso_iter_relative_tol", 'N', 1, 0, 1, 1, 1, 1, 9.9999999999999995e-07, "", {}},
{"pardiso_iterative", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"pardiso_matching_strategy", 'S', 0, 0, 0, 0, 0, 0, 0, "complete+2x2", {"complete", "complete+2x2", "constraints", }},
{"pardiso_max_droptol_corrections", 'I', 1, 1, 0, 0, 0, 0, 4, "", {}},
{"pardiso_max_iter", 'I', 1, 1, 0, 0, 0, 0, 500, "", {}},
{"pardiso_max_iterative_refinement_steps", 'I', 0, 0, 0, 0, 0, 0, 0, "", {}},
{"pardiso_msglvl", 'I', 1, 0, 0, 0, 0, 0, 0, "", {}},
{"pardiso_order", 'S', 0, 0, 0, 0, 0, 0, 0, "metis", {"amd", "one", "metis", "pmetis", "four", "five", }},
{"pardiso_redo_symbolic_fact_only_if_inertia_wrong", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"no", "yes", }},
{"pardiso_repeated_perturbation_means_singular", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"pardiso_skip_inertia_check", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"pardisolib", 'S', 0, 0, 0, 0, 0, 0, 0, "libpardiso.so", {"*", }},
{"pen_des_fact", 'N', 1, 0, 1, 0, 0, 0, 0.20000000000000001, "", {}},
{"pen_init_fac", 'N', 1, 0, 1, 0, 0, 0, 50, "", {}},
{"pen_theta_max_fact", 'N', 1, 0, 1, 0, 0, 0, 10000, "", {}},
{"penalty_init_max", 'N', 1, 0, 1, 0, 0, 0, 100000, "", {}},
{"penalty_init_min", 'N', 1, 0, 1, 0, 0, 0, 1, "", {}},
{"penalty_max", 'N', 1, 0, 1, 0, 0, 0, 1e+30, "", {}},
{"penalty_update_compl_tol", 'N', 1, 0, 1, 0, 0, 0, 10, "", {}},
{"penalty_update_infeasibility_tol", 'N', 1, 0, 1, 0, 0, 0, 1.0000000000000001e-09, "", {}},
{"perturb_always_cd", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"perturb_dec_fact", 'N', 1, 0, 1, 1, 1, 1, 0.33333333333333331, "", {}},
{"perturb_inc_fact", 'N', 1, 1, 1, 0, 0, 0, 8, "", {}},
{"perturb_inc_fact_first", 'N', 1, 1, 1, 0, 0, 0, 100, "", {}},
{"piecewisepenalty_gamma_infeasi", 'N', 1, 0, 1, 0, 0, 0, 1e-13, "", {}},
{"piecewisepenalty_gamma_obj", 'N', 1, 0, 1, 0, 0, 0, 1e-13, "", {}},
{"point_perturbation_radius", 'N', 1, 0, 0, 0, 0, 0, 10, "", {}},
{"print_advanced_options", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"print_frequency_iter", 'I', 1, 1, 0, 0, 0, 0, 1, "", {}},
{"print_frequency_time", 'N', 1, 0, 0, 0, 0, 0, 0, "", {}},
{"print_info_string", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"print_level", 'I', 1, 0, 0, 1, 12, 0, 5, "", {}},
{"print_options_documentation", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"print_options_mode", 'S', 0, 0, 0, 0, 0, 0, 0, "text", {"text", "latex", "doxygen", }},
{"print_timing_statistics", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"print_user_options", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"quality_function_balancing_term", 'S', 0, 0, 0, 0, 0, 0, 0, "none", {"none", "cubic", }},
{"quality_function_centrality", 'S', 0, 0, 0, 0, 0, 0, 0, "none", {"none", "log", "reciprocal", "cubed-reciprocal", }},
{"quality_function_max_section_steps", 'I', 1, 0, 0, 0, 0, 0, 8, "", {}},
{"quality_function_norm_type", 'S', 0, 0, 0, 0, 0, 0, 0, "2-norm-squared", {"1-norm", "2-norm-squared", "max-norm", "2-norm", }},
{"quality_function_section_qf_tol", 'N', 1, 0, 0, 1, 1, 1, 0, "", {}},
{"quality_function_section_sigma_tol", 'N', 1, 0, 0, 1, 1, 1, 0.01, "", {}},
{"recalc_y", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"no", "yes", }},
{"recalc_y_feas_tol", 'N', 1, 0, 1, 0, 0, 0, 9.9999999999999995e-07, "", {}},
{"replace_bounds", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"required_infeasibility_reduction", 'N', 1, 0, 0, 1, 1, 1, 0.90000000000000002, "", {}},
{"residual_improvement_factor", 'N', 1, 0, 1, 0, 0, 0, 0.99999999900000003, "", {}},
{"residual_ratio_max", 'N', 1, 0, 1, 0, 0, 0, 1e-10, "", {}},
{"residual_ratio_singular", 'N', 1, 0, 1, 0, 0, 0, 1.0000000000000001e-05, "", {}},
{"resto_failure_feasibility_threshold", 'N', 1, 0, 0, 0, 0, 0, 0, "", {}},
{"resto_penalty_parameter", 'N', 1, 0, 1, 0, 0, 0, 1000, "", {}},
{"resto_proximity_weight", 'N', 1, 0, 0, 0, 0, 0, 1, "", {}},
{"rho", 'N', 1, 0, 1, 1, 1, 1, 0.10000000000000001, "", {}},
{"s_max", 'N', 1, 0, 1, 0, 0, 0, 100, "", {}},
{"s_phi", 'N', 1, 1, 1, 0, 0, 0, 2.2999999999999998, "", {}},
{"s_theta", 'N', 1, 1, 1, 0, 0, 0, 1.1000000000000001, "", {}},
{"sb", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"sigma_max", 'N', 1, 0, 1, 0, 0, 0, 100, "", {}},
{"sigma_min", 'N', 1, 0, 0, 0, 0, 0, 9.9999999999999995e-07, "", {}},
{"skip_corr_if_neg_curv", 'S', 0, 0, 0, 0, 0, 0, 0, "yes", {"yes", "no", }},
{"skip_corr_in_monotone_mode", 'S', 0, 0, 0, 0, 0, 0, 0, "yes", {"yes", "no", }},
{"skip_finalize_solution_call", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"slack_bound_frac", 'N', 1, 0, 1, 1, 0.5, 0, 0.01, "", {}},
{"slack_bound_push", 'N', 1, 0, 1, 0, 0, 0, 0.01, "", {}},
{"slack_move", 'N', 1, 0, 0, 0, 0, 0, 1.8189894035458565e-12, "", {}},
{"soc_method", 'I', 1, 0, 0, 1, 1, 0, 0, "", {}},
{"soft_resto_pderror_reduction_factor", 'N', 1, 0, 0, 0, 0, 0, 0.99990000000000001, "", {}},
{"start_with_resto", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"suppress_all_output", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"tau_min", 'N', 1, 0, 1, 1, 1, 1, 0.98999999999999999, "", {}},
{"theta_max_fact", 'N', 1, 0, 1, 0, 0, 0, 10000, "", {}},
{"theta_min", 'N', 1, 0, 1, 0, 0, 0, 9.9999999999999995e-07, "", {}},
{"theta_min_fact", 'N', 1, 0, 1, 0, 0, 0, 0.0001, "", {}},
{"timing_statistics", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"tiny_step_tol", 'N', 1, 0, 0, 0, 0, 0, 2.2204460492503131e-15, "", {}},
{"tiny_step_y_tol", 'N', 1, 0, 0, 0, 0, 0, 0.01, "", {}},
{"tol", 'N', 1, 0, 1, 0, 0, 0, 1e-08, "", {}},
{"vartheta", 'N', 1, 0, 1, 0, 0, 0, 0.5, "", {}},
{"warm_start_bound_frac", 'N', 1, 0, 1, 1, 0.5, 0, 0.001, "", {}},
{"warm_start_bound_push", 'N', 1, 0, 1, 0, 0, 0, 0.001, "", {}},
{"warm_start_entire_iterate", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"no", "yes", }},
{"warm_start_init_point", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"no", "yes", }},
{"warm_start_mult_bound_push", 'N', 1, 0, 1, 0, 0, 0, 0.001, "", {}},
{"warm_start_mult_init_max", 'N', 0, 0, 0, 0, 0, 0, 1000000, "", {}},
{"warm_start_same_structure", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
{"warm_start_slack_bound_frac", 'N', 1, 0, 1, 1, 0.5, 0, 0.001, "", {}},
{"warm_start_slack_bound_push", 'N', 1, 0, 1, 0, 0, 0, 0.001, "", {}},
{"warm_start_target_mu", 'N', 0, 0, 0, 0, 0, 0, 0, "", {}},
{"watchdog_shortened_iter_trigger", 'I', 1, 0, 0, 0, 0, 0, 10, "", {}},
{"watchdog_trial_iter_max", 'I', 1, 1, 0, 0, 0, 0, 3, "", {}},
{"wsmp_iterative", 'S', 0, 0, 0, 0, 0, 0, 0, "no", {"yes", "no", }},
