"""Functions present on the reference tree: name, kind, parameters (written by tools/mkknown.py)."""
TABLE = """
verse.agents.base_agent:BaseAgent.TC_simulate - self,mode,initialSet,time_horizon,time_step,map
verse.agents.base_agent:BaseAgent.__init__ - self,id,code,file_name,initial_state,initial_mode
verse.agents.base_agent:BaseAgent.dynamics s t,state,u
verse.agents.base_agent:BaseAgent.set_initial - self,initial_state,initial_mode,static_param,uncertain_param
verse.agents.base_agent:BaseAgent.set_initial_mode - self,initial_mode
verse.agents.base_agent:BaseAgent.set_initial_state - self,initial_state
verse.agents.base_agent:BaseAgent.set_static_parameter - self,static_param
verse.agents.base_agent:BaseAgent.set_uncertain_parameter - self,uncertain_param
verse.agents.example_agent.ball_agent:BallAgent.__init__ - self,id,code,file_name
verse.agents.example_agent.ball_agent:BallAgent.dynamics - self,t,state
verse.agents.example_agent.ballg_agent:Ball_g_agent.__init__ - self,id,code,file_name,g_acc_val
verse.agents.example_agent.ballg_agent:Ball_g_agent.dynamics s self,t,state
verse.agents.example_agent.car_agent:CarAgent.TC_simulate - self,mode,init,time_bound,time_step,lane_map
verse.agents.example_agent.car_agent:CarAgent.__init__ - self,id,code,file_name,initial_state,initial_mode,speed,accel
verse.agents.example_agent.car_agent:CarAgent.action_handler - self,mode,state,lane_map
verse.agents.example_agent.car_agent:CarAgent.dynamics s t,state,u
verse.agents.example_agent.car_agent:CarAgentDebounced.__init__ - self,id,code,file_name,initial_state,initial_mode,speed,accel
verse.agents.example_agent.car_agent:CarAgentDebounced.action_handler - self,mode,state,lane_map
verse.agents.example_agent.car_agent:CarAgentDebounced.dynamics s t,state,u
verse.agents.example_agent.car_agent:CarAgentSwitch2.__init__ - self,id,code,file_name,initial_state,initial_mode,speed,accel
verse.agents.example_agent.car_agent:CarAgentSwitch2.action_handler - self,mode,state,lane_map
verse.agents.example_agent.car_agent:CarAgentSwitch2.dynamics s t,state,u
verse.agents.example_agent.car_agent:NPCAgent.TC_simulate - self,mode,init,time_bound,time_step,lane_map
verse.agents.example_agent.car_agent:NPCAgent.__init__ - self,id,initial_state,initial_mode
verse.agents.example_agent.car_agent:NPCAgent.action_handler - self,mode,state,lane_map
verse.agents.example_agent.car_agent:NPCAgent.dynamics s t,state,u
verse.agents.example_agent.car_agent:WeirdCarAgent.__init__ - self,id,code,file_name
verse.agents.example_agent.car_agent:WeirdCarAgent._action_handler - self,mode,state,lane_map
verse.agents.example_agent.car_agent:WeirdCarAgent.action_handler - self,mode,state,lane_map
verse.agents.example_agent.line_agent:LineAgent.__init__ - self,id,code,file_name
verse.agents.example_agent.line_agent:LineAgent.dynamics - self,t,state
verse.agents.example_agent.origin_agent:craft_agent.Passive_dynamics s t,state
verse.agents.example_agent.origin_agent:craft_agent.ProxA_dynamics s t,state
verse.agents.example_agent.origin_agent:craft_agent.ProxB_dynamics s t,state
verse.agents.example_agent.origin_agent:craft_agent.TC_simulate - self,mode,initialCondition,time_bound,time_step,lane_map
verse.agents.example_agent.origin_agent:craft_agent.__init__ - self,id,code,file_name
verse.agents.example_agent.origin_agent:craft_agent.action_handler - self,mode
verse.agents.example_agent.origin_agent:thermo_agent.TC_simulate - self,mode,initialCondition,time_bound,time_step,lane_map
verse.agents.example_agent.origin_agent:thermo_agent.__init__ - self,id,code,file_name
verse.agents.example_agent.origin_agent:thermo_agent.action_handler - self,mode
verse.agents.example_agent.origin_agent:thermo_agent.dynamics s t,state,rate
verse.agents.example_agent.origin_agent:vanderpol_agent.TC_simulate - self,mode,initialCondition,time_bound,time_step,lane_map
verse.agents.example_agent.origin_agent:vanderpol_agent.__init__ - self,id,code,file_name
verse.agents.example_agent.origin_agent:vanderpol_agent.dynamics s t,state
verse.agents.example_agent.quadrotor_agent:FFNNC.__init__ - self,D_in,D_out
verse.agents.example_agent.quadrotor_agent:FFNNC.forward - self,x
verse.agents.example_agent.quadrotor_agent:QuadrotorAgent.TC_simulate - self,mode,initialCondition,time_bound,time_step,lane_map
verse.agents.example_agent.quadrotor_agent:QuadrotorAgent.__init__ - self,id,code,file_name,t_v_pair,box_side
verse.agents.example_agent.quadrotor_agent:QuadrotorAgent.action_handler - self,mode,state,lane_map
verse.agents.example_agent.quadrotor_agent:QuadrotorAgent.dynamics s t,state,u
verse.agents.example_agent.quadrotor_agent:QuadrotorAgent.runModel - self,mode,initalCondition,time_bound,time_step,ref_input,lane_map
verse.agents.example_agent.robot_agent:RobotAgent.TC_simulate - self,mode,initialCondition,time_bound,time_step,lane_map
verse.agents.example_agent.robot_agent:RobotAgent.__init__ - self,id,code,file_name
verse.agents.example_agent.robot_agent:RobotAgent.dynamics s t,state
verse.agents.example_agent.sign_agent:SignAgent.TC_simulate - self,mode,init,time_horizon,time_step,map
verse.agents.example_agent.sign_agent:SignAgent.__init__ - self,id
verse.analysis.analysis_tree:AnalysisTree.__init__ - self,root
verse.analysis.analysis_tree:AnalysisTree._get_all_nodes s root
verse.analysis.analysis_tree:AnalysisTree._get_len s node,lens
verse.analysis.analysis_tree:AnalysisTree.collect_leaf_nodes - self,node,leafs
verse.analysis.analysis_tree:AnalysisTree.contains - self,other,strict,tol
verse.analysis.analysis_tree:AnalysisTree.dump - self,fn
verse.analysis.analysis_tree:AnalysisTree.get_leaf_nodes - self,root
verse.analysis.analysis_tree:AnalysisTree.height - self,root
verse.analysis.analysis_tree:AnalysisTree.is_equal - self,other
verse.analysis.analysis_tree:AnalysisTree.leaves - self
verse.analysis.analysis_tree:AnalysisTree.load s fn
verse.analysis.analysis_tree:AnalysisTree.visualize - self
verse.analysis.analysis_tree:AnalysisTree.visualize_dot - self,filename,otype,font
verse.analysis.analysis_tree:AnalysisTreeNode.__init__ - self,trace,init,mode,static,uncertain_param,agent,height,assert_hits,child,start_time,ndigits,type,id
verse.analysis.analysis_tree:AnalysisTreeNode._from_dict s data
verse.analysis.analysis_tree:AnalysisTreeNode._to_dict - self
verse.analysis.analysis_tree:AnalysisTreeNode.get_mode - self,agent_id,mode
verse.analysis.analysis_tree:AnalysisTreeNode.get_track - self,agent_id,mode
verse.analysis.analysis_tree:AnalysisTreeNode.new_child - self,init,mode,trace,start_time,id
verse.analysis.analysis_tree:AnalysisTreeNode.root_from_inits s init,mode,static,uncertain_param,agent,ndigits,type
verse.analysis.analysis_tree:AnalysisTreeNodeType.__str__ - self
verse.analysis.analysis_tree:AnalysisTreeNodeType._from_str s s
verse.analysis.analysis_tree:_color_interp - c1,c2,mix
verse.analysis.analysis_tree:first_transitions - tree
verse.analysis.analysis_tree:index_of - l,item
verse.analysis.dryvr:all_sensitivities_calc - training_traces,initial_radii
verse.analysis.dryvr:calcCenterPoint - lower,upper
verse.analysis.dryvr:calcDelta - lower,upper
verse.analysis.dryvr:calc_bloated_tube - mode_label,initial_set,time_horizon,time_step,sim_func,bloating_method,kvalue,sim_trace_num,guard_checker,guard_str,lane_map
verse.analysis.dryvr:get_reachtube_segment - training_traces,initial_radii,method
verse.analysis.dryvr:randomPoint - lower,upper,seed
verse.analysis.dryvr:trimTraces - traces
verse.analysis.dryvr_disc:all_sensitivities_calc - training_traces,initial_radii
verse.analysis.dryvr_disc:calcCenterPoint - lower,upper
verse.analysis.dryvr_disc:calcDelta - lower,upper
verse.analysis.dryvr_disc:calc_bloated_tube_dryvr - mode_label,initial_set,time_horizon,time_step,sim_func,bloating_method,kvalue,sim_trace_num,guard_checker,guard_str,lane_map,traces
verse.analysis.dryvr_disc:get_reachtube_segment - training_traces,initial_radii,method
verse.analysis.dryvr_disc:randomPoint - lower,upper,seed
verse.analysis.dryvr_disc:trimTraces - traces
verse.analysis.incremental:CachedTube.__eq__ - self,other
verse.analysis.incremental:ReachTubeCache.__init__ - self
verse.analysis.incremental:ReachTubeCache.add_tube - self,agent_id,init,node,transit_agents,transition,trans_ind,run_num
verse.analysis.incremental:ReachTubeCache.check_hit - self,agent_id,mode,init,inits
verse.analysis.incremental:ReachTubeCache.get_cached_inits - self,n
verse.analysis.incremental:ReachTubeCache.iter_tree s tree,depth
verse.analysis.incremental:ReachTubeCache.query_cont s tree,cont
verse.analysis.incremental:SimTraceCache.__init__ - self
verse.analysis.incremental:SimTraceCache.add_segment - self,agent_id,node,transit_agents,trace,transition,trans_ind,run_num
verse.analysis.incremental:SimTraceCache.check_hit - self,agent_id,mode,init,inits
verse.analysis.incremental:SimTraceCache.get_cached_inits - self,n
verse.analysis.incremental:SimTraceCache.iter_tree s tree,depth
verse.analysis.incremental:SimTraceCache.query_cont s tree,cont
verse.analysis.incremental:TubeCache.__init__ - self
verse.analysis.incremental:TubeCache.add_tube - self,agent_id,mode,init,trace
verse.analysis.incremental:TubeCache.check_hit - self,agent_id,mode,init
verse.analysis.incremental:combine_all - inits,stars
verse.analysis.incremental:convert_reach_trans - agent_id,transit_agents,inits,transition,trans_ind
verse.analysis.incremental:convert_sim_trans - agent_id,transit_agents,inits,transition,trans_ind
verse.analysis.incremental:reach_trans_suit - a,b
verse.analysis.incremental:sim_trans_suit - a,b
verse.analysis.incremental:to_simulate - old_agents,new_agents,cached
verse.analysis.mixmonotone:calculate_bloated_tube_mixmono_cont - mode,init,uncertain_param,time_horizon,time_step,agent,lane_map
verse.analysis.mixmonotone:calculate_bloated_tube_mixmono_disc - mode,init,uncertain_param,time_horizon,time_step,agent,lane_map
verse.analysis.mixmonotone:compute_reachtube_mixmono_cont - initial_set,uncertain_var_bound,time_horizon,time_step,decomposition
verse.analysis.mixmonotone:compute_reachtube_mixmono_disc - initial_set,uncertain_var_bound,time_horizon,time_step,decomposition
verse.analysis.mixmonotone:find_max - expr_func,jac_func,var_range,num_var,args,idx
verse.analysis.mixmonotone:find_max_symbolic - expr,var_range
verse.analysis.mixmonotone:find_min - expr_func,jac_func,var_range,num_var,args,idx
verse.analysis.mixmonotone:find_min_symbolic - expr,var_range
verse.analysis.parsed_wrap.bounded_angular:_format_bounds - merged
verse.analysis.parsed_wrap.bounded_angular:_intervals_overlap_or_adjacent - interval1,interval2
verse.analysis.parsed_wrap.bounded_angular:_intervals_overlap_or_adjacent_wrapped - merged_intervals
verse.analysis.parsed_wrap.bounded_angular:angle_in_wrapped_interval - angle,ang_min,ang_max
verse.analysis.parsed_wrap.bounded_angular:angular_bounds_diff_correct - theta,theta_ref
verse.analysis.parsed_wrap.bounded_angular:angular_bounds_rectangle - x_bounds,y_bounds
verse.analysis.parsed_wrap.bounded_angular:angular_span_between_rects - rect1,rect2
verse.analysis.parsed_wrap.bounded_angular:angular_span_rect - rect,split
verse.analysis.parsed_wrap.bounded_angular:angular_span_rect_parser - y_bounds,x_bounds
verse.analysis.parsed_wrap.bounded_angular:box_extreme_error - bounds,eps_r,eps_theta,axis
verse.analysis.parsed_wrap.bounded_angular:combine_angular_bounds - bounds_list
verse.analysis.parsed_wrap.bounded_angular:error_max_obj - xyz,eps_r,eps_theta,axis
verse.analysis.parsed_wrap.bounded_angular:error_min_obj - xyz,eps_r,eps_theta,axis
verse.analysis.parsed_wrap.bounded_angular:point_error_general - xyz,eps_r,eps_theta,axis
verse.analysis.parsed_wrap.bounded_angular:projection_bounds_general - theta,psi,eps_theta,axis
verse.analysis.parsed_wrap.bounded_angular:rect_corners - xmin,xmax,ymin,ymax
verse.analysis.parsed_wrap.bounded_angular:wrap_angle - angle
verse.analysis.parsed_wrap.bounded_map:get_heading_bounds_optimized - lane_map,lane_idx,x_bounds,y_bounds
verse.analysis.parsed_wrap.bounded_map:get_lateral_distance_bounds_optimized - lane_map,lane_idx,x_bounds,y_bounds
verse.analysis.parsed_wrap.bounded_map:get_long_pos_bounds_optimized - lane_map,lane_idx,x_bounds,y_bounds
verse.analysis.parsed_wrap.bounded_piecewise:ast_to_z3_condition - node,z3_vars
verse.analysis.parsed_wrap.bounded_piecewise:ast_to_z3_expr - node,z3_vars
verse.analysis.parsed_wrap.bounded_piecewise:bounded_piecewise_z3 - conditions_outputs,input_bounds
verse.analysis.parsed_wrap.bounded_piecewise:create_output_func - output_expr,arg_names
verse.analysis.parsed_wrap.bounded_piecewise:extract_return_value - body
verse.analysis.parsed_wrap.bounded_piecewise:parse_piecewise_function - func
verse.analysis.parsed_wrap.bounded_piecewise:vis_sensor_piecewise - psi,phi
verse.analysis.parsed_wrap.bounded_piecewise:z3num_to_float - x
verse.analysis.parsed_wrap.parser_wrapper:clear_parse_cache - 
verse.analysis.parsed_wrap.parser_wrapper:compute_expression_bounds_with_parsed_sensor - expr_code,arg_names,current_bounds,piecewise_functions,track_mode,track_map
verse.analysis.parsed_wrap.parser_wrapper:get_cache_key - input_bounds,function_name
verse.analysis.parsed_wrap.parser_wrapper:handle_angular_function - func_name,args,current_bounds
verse.analysis.parsed_wrap.parser_wrapper:handle_crown_function - func_code,arg_names,current_bounds
verse.analysis.parsed_wrap.parser_wrapper:handle_map_function - func_name,args,current_bounds,track_mode,track_map
verse.analysis.parsed_wrap.parser_wrapper:handle_piecewise_function - func,args,current_bounds
verse.analysis.parsed_wrap.parser_wrapper:map_sensor - x,y
verse.analysis.parsed_wrap.parser_wrapper:parse_function - func,input_bounds,piecewise_functions,track_mode,track_map,cache,logging,parent_cache
verse.analysis.parsed_wrap.parser_wrapper:parse_function_array - func,input_bounds,piecewise_functions,track_mode,track_map,cache,logging,num_splits
verse.analysis.parsed_wrap.parser_wrapper:pw - psi,phi
verse.analysis.parsed_wrap.parser_wrapper:test_sensor - x,y
verse.analysis.parsed_wrap.parser_wrapper:vis_sensor_piecewise - psi,phi
verse.analysis.parsed_wrap.sensor_parser:TorchFuncModule.__init__ - self,fn
verse.analysis.parsed_wrap.sensor_parser:TorchFuncModule._compile - self,fn
verse.analysis.parsed_wrap.sensor_parser:TorchFuncModule.forward - self,*args
verse.analysis.parsed_wrap.sensor_parser:atan2_crown - y,x
verse.analysis.parsed_wrap.sensor_parser:atan2_crown_safe - y,x
verse.analysis.parsed_wrap.sensor_parser:atan2_test - x,y,other_x,other_y
verse.analysis.parsed_wrap.sensor_parser:atan2_test_only - x,y
verse.analysis.parsed_wrap.sensor_parser:clear_sensor_cache - 
verse.analysis.parsed_wrap.sensor_parser:compute_bounds_for_split - args
verse.analysis.parsed_wrap.sensor_parser:cur_sense_relu - x,y,other_x,other_y,theta,phi
verse.analysis.parsed_wrap.sensor_parser:get_cache_key - input_bounds,function_name
verse.analysis.parsed_wrap.sensor_parser:noisy_sensor - x,y,e_rho,e_theta
verse.analysis.parsed_wrap.sensor_parser:norm - x,*args,**kwargs
verse.analysis.parsed_wrap.sensor_parser:parsed_sensor - sensor_function,inputs,input_bounds,device,sim,num_splits
verse.analysis.parsed_wrap.sensor_parser:parsed_sensor_expr - sensor_src,input_bounds,device,nonce,num_splits
verse.analysis.parsed_wrap.sensor_parser:prox_error_ver - x,y,z,ep_r,ep_ang
verse.analysis.parsed_wrap.sensor_parser:vis_sense_cont - x,y,other_x,other_y,theta,phi
verse.analysis.simulator:Simulator.__init__ - self,config
verse.analysis.simulator:Simulator.get_transition_simulate s cache,paths,node,track_map,sensor,agent_dict,print_level
verse.analysis.simulator:Simulator.get_transition_simulate_simple s node,track_map,sensor
verse.analysis.simulator:Simulator.proc_result - self,id,later,next_nodes,traces,assert_hits,cache_updates
verse.analysis.simulator:Simulator.simulate - self,root,sensor,time_horizon,time_step,max_height,lane_map,run_num,past_runs
verse.analysis.simulator:Simulator.simulate_one s config,cached_segments,node,old_node_id,later,remain_time,consts
verse.analysis.simulator:Simulator.simulate_simple - self,root,time_horizon,time_step,max_height,lane_map,sensor,run_num,past_runs
verse.analysis.simulator:checkHeight - root,max_height
verse.analysis.simulator:check_sim_transitions - agent,guards,cont,disc,map,state,mode
verse.analysis.simulator:convertEnumToStr - inp,agent,dl
verse.analysis.simulator:convertStrToEnum - inp,agent,dl
verse.analysis.simulator:disc_field - field,agent
verse.analysis.simulator:pack_env - agent,ego_ty_name,cont,disc,track_map
verse.analysis.simulator:red - s
verse.analysis.verifier:Verifier.__init__ - self,config
verse.analysis.verifier:Verifier._compute_trace_for_partition s mode,inits,remain_time,time_step,sim_func,params,reachability_method,lane_map
verse.analysis.verifier:Verifier._get_combinations s symbols,cont_var_dict
verse.analysis.verifier:Verifier._partition_rect s rect,n,partition_dims
verse.analysis.verifier:Verifier._union_traces s traces,reachability_method
verse.analysis.verifier:Verifier.apply_cont_var_updater s cont_var_dict,updater
verse.analysis.verifier:Verifier.apply_reset s agent,reset_list,all_agent_state,track_map
verse.analysis.verifier:Verifier.apply_reset_stars s agent,reset_list,all_agent_state,track_map
verse.analysis.verifier:Verifier.calculate_full_bloated_tube_simple s agent_id,cached_tube_info,incremental,mode_label,initial_set,time_horizon,time_step,sim_func,params,kvalue,sim_trace_num,combine_seg_length,guard_checker,guard_str,lane_map
verse.analysis.verifier:Verifier.calculate_full_bloated_tube_stars s agent_id,cached_tube_info,incremental,mode_label,initial_set,time_horizon,time_step,sim_func,params,kvalue,sim_trace_num,combine_seg_length,guard_checker,guard_str,lane_map,pca
verse.analysis.verifier:Verifier.check_cache_bloated_tube - self,agent_id,mode_label,initial_set,combine_seg_length
verse.analysis.verifier:Verifier.check_cache_bloated_tube_stars - self,agent_id,mode_label,initial_set,combine_seg_length
verse.analysis.verifier:Verifier.compute_full_reachtube - self,root,sensor,time_horizon,time_step,max_height,lane_map,init_seg_length,reachability_method,run_num,past_runs,params
verse.analysis.verifier:Verifier.compute_full_reachtube_partitioned - self,root,sensor,time_horizon,time_step,max_height,lane_map,init_seg_length,reachability_method,run_num,past_runs,n,partition_initial,partition_dims,params
verse.analysis.verifier:Verifier.compute_full_reachtube_step s config,cached_trans_tubes,cached_tubes,node,old_node_id,later,remain_time,consts,max_height,params
verse.analysis.verifier:Verifier.compute_full_reachtube_step_partitioned s config,cached_trans_tubes,cached_tubes,node,old_node_id,later,remain_time,consts,max_height,n,partition_initial,partition_dims,params
verse.analysis.verifier:Verifier.get_transition_verify_opt s config,cache,paths,node,track_map,sensor
verse.analysis.verifier:Verifier.proc_result - self,id,later,next_nodes,traces,assert_hits,cache_tube_updates,cache_trans_tube_updates,max_height
verse.analysis.verifier:checkHeight - root,max_height
verse.analysis.verifier:combine_rect - trace
verse.automaton.guard:GuardExpressionAst.__init__ - self,guard_list,guard_idx
verse.automaton.guard:GuardExpressionAst._build_guard - self,guard_str,agent
verse.automaton.guard:GuardExpressionAst._evaluate_guard - self,root,agent,cnts_var_dict,disc_var_dict,track_map
verse.automaton.guard:GuardExpressionAst._evaluate_guard_disc - self,root,agent,disc_var_dict,cont_var_dict,track_map
verse.automaton.guard:GuardExpressionAst._evaluate_guard_hybrid - self,root,agent,disc_var_dict,cont_var_dict,track_map,agent_vars
verse.automaton.guard:GuardExpressionAst._generate_z3_expression_node - self,node
verse.automaton.guard:GuardExpressionAst._handle_lateral_set - self,lane_seg,position
verse.automaton.guard:GuardExpressionAst._handle_longitudinal_set - self,lane_seg,position
verse.automaton.guard:GuardExpressionAst._parse_elt - self,root,cont_var_dict,disc_var_dict,iter_name_list,targ_name_list,iter_pos_list
verse.automaton.guard:GuardExpressionAst._parse_elt_new - self,root,cont_var_dict,disc_var_dict,cont_var_updater,iter_name_list,targ_var_list,iter_pos_list
verse.automaton.guard:GuardExpressionAst.evaluate_guard - self,agent,continuous_variable_dict,discrete_variable_dict,track_map
verse.automaton.guard:GuardExpressionAst.evaluate_guard_cont - self,agent,continuous_variable_dict,track_map,stars
verse.automaton.guard:GuardExpressionAst.evaluate_guard_disc - self,agent,discrete_variable_dict,continuous_variable_dict,track_map
verse.automaton.guard:GuardExpressionAst.evaluate_guard_hybrid - self,agent,discrete_variable_dict,continuous_variable_dict,track_map,stars
verse.automaton.guard:GuardExpressionAst.generate_z3_expression - self
verse.automaton.guard:GuardExpressionAst.get_agent_dictionaries - self,symbols,continuous_variable_dict
verse.automaton.guard:GuardExpressionAst.get_agent_variable_indices - self,symbols,continuous_variable_dict
verse.automaton.guard:GuardExpressionAst.parse_any_all - self,cont_var_dict,disc_var_dict,len_dict
verse.automaton.guard:GuardExpressionAst.parse_any_all_new - self,cont_var_dict,disc_var_dict,len_dict
verse.automaton.guard:GuardExpressionAst.unroll_any_all - self,node,cont_var_dict,disc_var_dict,len_dict
verse.automaton.guard:GuardExpressionAst.unroll_any_all_new - self,node,cont_var_dict,disc_var_dict,len_dict,cont_var_updater
verse.automaton.guard:LogicTreeNode.__init__ - self,data,child,val,mode_guard
verse.automaton.guard:NodeSubstituter.__init__ - self,old_node,new_node
verse.automaton.guard:NodeSubstituter.visit_Reduction - self,node
verse.automaton.guard:ValueSubstituter.__init__ - self,val,node
verse.automaton.guard:ValueSubstituter.visit_Attribute - self,node
verse.automaton.guard:ValueSubstituter.visit_Name - self,node
verse.automaton.guard:ValueSubstituter.visit_Reduction - self,node
verse.automaton.hybrid_automaton:HybridAutomaton.__init__ - self,id,variables,discrete_variables,modes,edges,guards,resets,dynamics
verse.automaton.hybrid_automaton:HybridAutomaton.generate_automaton_json - self
verse.automaton.hybrid_io_automaton:HybridIoAutomaton.__init__ - self,id,input_variables,output_variables,internal_variables,discrete_variables,modes,edges,guards,resets,dynamics
verse.automaton.reset:ResetExpression.__eq__ - self,o
verse.automaton.reset:ResetExpression.__init__ - self,reset
verse.map.example_map.intersection:Intersection.__init__ - self,width,size,length,lanes
verse.map.example_map.intersection:Intersection.h - self,lane_idx,mode_src,mode_dest
verse.map.example_map.map_tacas:M1.__init__ - self
verse.map.example_map.map_tacas:M2.__init__ - self
verse.map.example_map.map_tacas:M2.left_lane - self,lane_mode
verse.map.example_map.map_tacas:M2.right_lane - self,lane_mode
verse.map.example_map.map_tacas:M3.__init__ - self
verse.map.example_map.map_tacas:M5.__init__ - self
verse.map.example_map.map_tacas:M5.h - self,lane_idx,agent_mode_src,agent_mode_dest
verse.map.example_map.map_tacas:M5.h_exist - self,lane_idx,agent_mode_src,agent_mode_dest
verse.map.example_map.map_tacas:M5.trans_func - self,lane_idx
verse.map.example_map.map_tacas:M6.__init__ - self
verse.map.example_map.map_tacas:M6.h_exist_func - self,lane_idx,agent_mode_src,agent_mode_dest
verse.map.example_map.map_tacas:M6.h_func - self,lane_idx,agent_mode_src,agent_mode_dest
verse.map.example_map.map_tacas:M6.trans_func - self,lane_idx
verse.map.example_map.map_tacas:get_end - start,n,lens
verse.map.example_map.simple_map2:SimpleMap2.__init__ - self
verse.map.example_map.simple_map2:SimpleMap3.__init__ - self
verse.map.example_map.simple_map2:SimpleMap4.__init__ - self
verse.map.example_map.simple_map2:SimpleMap4.left_lane - self,lane_mode
verse.map.example_map.simple_map2:SimpleMap4.right_lane - self,lane_mode
verse.map.example_map.simple_map2:SimpleMap4Switch2.__init__ - self
verse.map.example_map.simple_map2:SimpleMap4Switch2.h - self,lane_idx,mode_src,mode_dest
verse.map.example_map.simple_map2:SimpleMap5.__init__ - self
verse.map.example_map.simple_map2:SimpleMap6.__init__ - self
verse.map.example_map.simple_map:SimpleMap.__init__ - self
verse.map.example_map.simple_map:SimpleMap2.__init__ - self
verse.map.example_map.simple_map_3d:SimpleMap1.__init__ - self,box_side,t_v_pair
verse.map.example_map.simple_map_3d:SimpleMap2.__init__ - self,box_side,t_v_pair
verse.map.example_map.simple_map_3d:SimpleMap3.__init__ - self,box_side,t_v_pair
verse.map.example_map.simple_map_3d:SimpleMap4.__init__ - self,box_side,t_v_pair
verse.map.example_map.simple_map_3d:SimpleMap5.__init__ - self,box_side,t_v_pair
verse.map.example_map.simple_map_3d:SimpleMap6.__init__ - self
verse.map.example_map.simple_map_3d:SimpleMap6.h - self,lane_idx,agent_mode_src,agent_mode_dest
verse.map.example_map.simple_map_3d:SimpleMap6.h_exist - self,lane_idx,agent_mode_src,agent_mode_dest
verse.map.example_map.simple_map_3d:SimpleMap6.trans_func - self,lane_idx
verse.map.example_map.simple_map_3d:SimpleMap7.__init__ - self
verse.map.example_map.simple_map_3d:SimpleMap7.h - self,lane_idx,agent_mode_src,agent_mode_dest
verse.map.example_map.simple_map_3d:SimpleMap7.h_exist - self,lane_idx,agent_mode_src,agent_mode_dest
verse.map.example_map.simple_map_3d:SimpleMap7.trans_func - self,lane_idx
verse.map.example_map.simple_map_3d:get_center_radius - start,end,n,phase
verse.map.example_map.simple_map_3d:get_end - start,n,lens
verse.map.lane:Lane.__init__ - self,id,seg_list,speed_limit
verse.map.lane:Lane._set_longitudinal_start - self
verse.map.lane:Lane.get_heading - self,position
verse.map.lane:Lane.get_lane_segment - self,position
verse.map.lane:Lane.get_lane_width - self
verse.map.lane:Lane.get_lateral_distance - self,position
verse.map.lane:Lane.get_longitudinal_position - self,position
verse.map.lane:Lane.get_speed_limit - self
verse.map.lane_3d:Lane_3d.__init__ - self,id,seg_list,plotted
verse.map.lane_3d:Lane_3d._set_longitudinal_start - self
verse.map.lane_3d:Lane_3d.get_altitude - self
verse.map.lane_3d:Lane_3d.get_l_r_theta - self,position
verse.map.lane_3d:Lane_3d.get_lane_segment - self,position
verse.map.lane_3d:Lane_3d.get_lane_width - self
verse.map.lane_3d:Lane_3d.get_lateral_distance - self,position
verse.map.lane_3d:Lane_3d.get_longitudinal_position - self,position
verse.map.lane_3d:Lane_3d.get_theta_angle - self,position
verse.map.lane_map:LaneMap.__init__ - self,lane_seg_list
verse.map.lane_map:LaneMap.add_lanes - self,lane_seg_list
verse.map.lane_map:LaneMap.get_all_speed_limit - self
verse.map.lane_map:LaneMap.get_altitude - self,lane_idx,position
verse.map.lane_map:LaneMap.get_lane_heading - self,lane_idx,position
verse.map.lane_map:LaneMap.get_lane_segment - self,lane_idx,position
verse.map.lane_map:LaneMap.get_lane_width - self,lane_idx
verse.map.lane_map:LaneMap.get_lateral_distance - self,lane_idx,position
verse.map.lane_map:LaneMap.get_longitudinal_position - self,lane_idx,position
verse.map.lane_map:LaneMap.get_phys_lane s lane
verse.map.lane_map:LaneMap.get_speed_limit - self,lane_idx
verse.map.lane_map:LaneMap.h - self,lane_idx,agent_mode_src,agent_mode_dest
verse.map.lane_map:LaneMap.h_exist - self,lane_idx,agent_mode_src,agent_mode_dest
verse.map.lane_map:LaneMap.lane_geometry - self,lane_idx
verse.map.lane_map_3d:LaneMap_3d.__init__ - self,lane_seg_list
verse.map.lane_map_3d:LaneMap_3d.add_lanes - self,lane_seg_list
verse.map.lane_map_3d:LaneMap_3d.altitude - self,lane_idx
verse.map.lane_map_3d:LaneMap_3d.check_guard_box - self,agent_id,state,box_side
verse.map.lane_map_3d:LaneMap_3d.down_lane - self,lane_idx
verse.map.lane_map_3d:LaneMap_3d.g_func - self,agent_state,lane_idx
verse.map.lane_map_3d:LaneMap_3d.get_curr_waypoint - self,agent_id
verse.map.lane_map_3d:LaneMap_3d.get_l_r_theta - self,lane_idx,position
verse.map.lane_map_3d:LaneMap_3d.get_lane_segment - self,lane_idx,position
verse.map.lane_map_3d:LaneMap_3d.get_lane_width - self,lane_idx
verse.map.lane_map_3d:LaneMap_3d.get_lateral_distance - self,lane_idx,position
verse.map.lane_map_3d:LaneMap_3d.get_longitudinal_position - self,lane_idx,position
verse.map.lane_map_3d:LaneMap_3d.get_next_point - self,lane,agent_id,pos,velocity,t_v_pair
verse.map.lane_map_3d:LaneMap_3d.get_theta_angle - self,lane_idx,position
verse.map.lane_map_3d:LaneMap_3d.h - self,lane_idx,agent_mode_src,agent_mode_dest
verse.map.lane_map_3d:LaneMap_3d.h_exist - self,lane_idx,agent_mode_src,agent_mode_dest
verse.map.lane_map_3d:LaneMap_3d.h_exist_func - self,lane_idx,agent_mode_src,agent_mode_dest
verse.map.lane_map_3d:LaneMap_3d.h_func - self,lane_idx,agent_mode_src,agent_mode_dest
verse.map.lane_map_3d:LaneMap_3d.has_down - self,lane_idx
verse.map.lane_map_3d:LaneMap_3d.has_left - self,lane_idx
verse.map.lane_map_3d:LaneMap_3d.has_right - self,lane_idx
verse.map.lane_map_3d:LaneMap_3d.has_up - self,lane_idx
verse.map.lane_map_3d:LaneMap_3d.lane_geometry - self,lane_idx
verse.map.lane_map_3d:LaneMap_3d.left_lane - self,lane_idx
verse.map.lane_map_3d:LaneMap_3d.pair_lanes - self,lane_idx_src,lane_idx_dest,relation
verse.map.lane_map_3d:LaneMap_3d.right_lane - self,lane_idx
verse.map.lane_map_3d:LaneMap_3d.trans_func - self,lane_idx
verse.map.lane_map_3d:LaneMap_3d.up_lane - self,lane_idx
verse.map.lane_segment:AbstractLane.__init__ - self,id
verse.map.lane_segment:AbstractLane.after_end - self,position,longitudinal,lateral
verse.map.lane_segment:AbstractLane.distance - self,position
verse.map.lane_segment:AbstractLane.distance_with_heading - self,position,heading,heading_weight
verse.map.lane_segment:AbstractLane.from_config c cls,config
verse.map.lane_segment:AbstractLane.heading_at - self,longitudinal
verse.map.lane_segment:AbstractLane.is_reachable_from - self,position
verse.map.lane_segment:AbstractLane.local_coordinates - self,position
verse.map.lane_segment:AbstractLane.on_lane - self,position,longitudinal,lateral,margin
verse.map.lane_segment:AbstractLane.position - self,longitudinal,lateral
verse.map.lane_segment:AbstractLane.to_config - self
verse.map.lane_segment:AbstractLane.width_at - self,longitudinal
verse.map.lane_segment:CircularLane.__init__ - self,id,center,radius,start_phase,end_phase,clockwise,width,line_types,forbidden,speed_limit,priority
verse.map.lane_segment:CircularLane.from_config c cls,config
verse.map.lane_segment:CircularLane.heading_at - self,longitudinal
verse.map.lane_segment:CircularLane.local_coordinates - self,position
verse.map.lane_segment:CircularLane.position - self,longitudinal,lateral
verse.map.lane_segment:CircularLane.to_config - self
verse.map.lane_segment:CircularLane.width_at - self,longitudinal
verse.map.lane_segment:LaneSegment.__init__ - self,id,lane_parameter
verse.map.lane_segment:LaneSegment.get_geometry - self
verse.map.lane_segment:StraightLane.__init__ - self,id,start,end,width,line_types,forbidden,speed_limit,priority
verse.map.lane_segment:StraightLane.from_config c cls,config
verse.map.lane_segment:StraightLane.heading_at - self,longitudinal
verse.map.lane_segment:StraightLane.local_coordinates - self,position
verse.map.lane_segment:StraightLane.position - self,longitudinal,lateral
verse.map.lane_segment:StraightLane.to_config - self
verse.map.lane_segment:StraightLane.width_at - self,longitudinal
verse.map.lane_segment_3d:AbstractLane_3d.__init__ - self,id
verse.map.lane_segment_3d:AbstractLane_3d.after_end - self,position,longitudinal,lateral
verse.map.lane_segment_3d:AbstractLane_3d.altitude - self
verse.map.lane_segment_3d:AbstractLane_3d.distance - self,position
verse.map.lane_segment_3d:AbstractLane_3d.distance_with_heading - self,position,heading,heading_weight
verse.map.lane_segment_3d:AbstractLane_3d.from_config c cls,config
verse.map.lane_segment_3d:AbstractLane_3d.heading_at - self,longitudinal
verse.map.lane_segment_3d:AbstractLane_3d.is_reachable_from - self,position
verse.map.lane_segment_3d:AbstractLane_3d.local_coordinates - self,position
verse.map.lane_segment_3d:AbstractLane_3d.on_lane - self,position,longitudinal,lateral,margin
verse.map.lane_segment_3d:AbstractLane_3d.position - self,longitudinal,lateral,theta
verse.map.lane_segment_3d:AbstractLane_3d.to_config - self
verse.map.lane_segment_3d:AbstractLane_3d.width_at - self,longitudinal
verse.map.lane_segment_3d:CircularLane_3d_v1.__init__ - self,id,center,radius,norm_vec,start_phase,end_phase,right_rotate,width,line_types,forbidden,speed_limit,priority
verse.map.lane_segment_3d:CircularLane_3d_v1.altitude - self
verse.map.lane_segment_3d:CircularLane_3d_v1.from_config c cls,config
verse.map.lane_segment_3d:CircularLane_3d_v1.get_lane_center - self,num
verse.map.lane_segment_3d:CircularLane_3d_v1.get_outer_center - self,longitudinal
verse.map.lane_segment_3d:CircularLane_3d_v1.get_sample_points - self,num_theta,num_len
verse.map.lane_segment_3d:CircularLane_3d_v1.get_start_end_tang - self
verse.map.lane_segment_3d:CircularLane_3d_v1.get_tang - self,longitudinal
verse.map.lane_segment_3d:CircularLane_3d_v1.local_coordinates - self,position
verse.map.lane_segment_3d:CircularLane_3d_v1.position - self,longitudinal,lateral,theta
verse.map.lane_segment_3d:CircularLane_3d_v1.to_config - self
verse.map.lane_segment_3d:CircularLane_3d_v1.width_at - self,longitudinal
verse.map.lane_segment_3d:CircularLane_3d_v2.__init__ - self,id,start,end,norm_vec,delta_phase,right_rotate,width,line_types,forbidden,speed_limit,priority
verse.map.lane_segment_3d:StraightLane_3d.__init__ - self,id,start,end,width,line_types,forbidden,speed_limit,priority
verse.map.lane_segment_3d:StraightLane_3d.altitude - self
verse.map.lane_segment_3d:StraightLane_3d.from_config c cls,config
verse.map.lane_segment_3d:StraightLane_3d.get_lane_center - self,num
verse.map.lane_segment_3d:StraightLane_3d.get_sample_points - self,num_theta,num_len
verse.map.lane_segment_3d:StraightLane_3d.get_tang - self,longitudinal
verse.map.lane_segment_3d:StraightLane_3d.local_coordinates - self,position
verse.map.lane_segment_3d:StraightLane_3d.position - self,longitudinal,lateral,theta
verse.map.lane_segment_3d:StraightLane_3d.to_config - self
verse.map.lane_segment_3d:StraightLane_3d.width_at - self,longitudinal
verse.map.lane_segment_3d:func_a - n
verse.map.lane_segment_3d:func_b - n
verse.map.lane_segment_3d:get_center_radius - start,end,n,phase,right_rotate
verse.map.lane_segment_3d:get_coor_by_rt - r,theta,n,center,right_rotate
verse.map.lane_segment_3d:get_rtp_by_coor - point,n,center,radius,right_rotate
verse.map.lane_segment_3d:get_theta_by_coor - point,n,center,r,right_rotate
verse.map.opendrive_parser:check_valid_side - side
verse.map.opendrive_parser:condense_matrix - drive_way_matrix,width_2d
verse.map.opendrive_parser:file_parser - file_name
verse.map.opendrive_parser:opendrive_map - file_name
verse.map.opendrive_parser:road_traverser - road
verse.parser.astunparser:Unparser._AnnAssign - self,t
verse.parser.astunparser:Unparser._Assert - self,t
verse.parser.astunparser:Unparser._Assign - self,t
verse.parser.astunparser:Unparser._AsyncFor - self,t
verse.parser.astunparser:Unparser._AsyncFunctionDef - self,t
verse.parser.astunparser:Unparser._AsyncWith - self,t
verse.parser.astunparser:Unparser._Attribute - self,t
verse.parser.astunparser:Unparser._AugAssign - self,t
verse.parser.astunparser:Unparser._Await - self,t
verse.parser.astunparser:Unparser._BinOp - self,t
verse.parser.astunparser:Unparser._BoolOp - self,t
verse.parser.astunparser:Unparser._Break - self,t
verse.parser.astunparser:Unparser._Bytes - self,t
verse.parser.astunparser:Unparser._Call - self,t
verse.parser.astunparser:Unparser._ClassDef - self,t
verse.parser.astunparser:Unparser._Compare - self,t
verse.parser.astunparser:Unparser._CondVal - self,tree
verse.parser.astunparser:Unparser._CondValCase - self,tree
verse.parser.astunparser:Unparser._Constant - self,t
verse.parser.astunparser:Unparser._Continue - self,t
verse.parser.astunparser:Unparser._Delete - self,t
verse.parser.astunparser:Unparser._Dict - self,t
verse.parser.astunparser:Unparser._DictComp - self,t
verse.parser.astunparser:Unparser._Ellipsis - self,t
verse.parser.astunparser:Unparser._ExceptHandler - self,t
verse.parser.astunparser:Unparser._Exec - self,t
verse.parser.astunparser:Unparser._Expr - self,tree
verse.parser.astunparser:Unparser._Expression - self,tree
verse.parser.astunparser:Unparser._ExtSlice - self,t
verse.parser.astunparser:Unparser._For - self,t
verse.parser.astunparser:Unparser._FormattedValue - self,t
verse.parser.astunparser:Unparser._FunctionDef - self,t
verse.parser.astunparser:Unparser._GeneratorExp - self,t
verse.parser.astunparser:Unparser._Global - self,t
verse.parser.astunparser:Unparser._If - self,t
verse.parser.astunparser:Unparser._IfExp - self,t
verse.parser.astunparser:Unparser._Import - self,t
verse.parser.astunparser:Unparser._ImportFrom - self,t
verse.parser.astunparser:Unparser._Index - self,t
verse.parser.astunparser:Unparser._Interactive - self,tree
verse.parser.astunparser:Unparser._JoinedStr - self,t
verse.parser.astunparser:Unparser._Lambda - self,t
verse.parser.astunparser:Unparser._List - self,t
verse.parser.astunparser:Unparser._ListComp - self,t
verse.parser.astunparser:Unparser._Module - self,tree
verse.parser.astunparser:Unparser._Name - self,t
verse.parser.astunparser:Unparser._NameConstant - self,t
verse.parser.astunparser:Unparser._NamedExpr - self,tree
verse.parser.astunparser:Unparser._Nonlocal - self,t
verse.parser.astunparser:Unparser._Num - self,t
verse.parser.astunparser:Unparser._Pass - self,t
verse.parser.astunparser:Unparser._Print - self,t
verse.parser.astunparser:Unparser._Raise - self,t
verse.parser.astunparser:Unparser._Reduction - self,tree
verse.parser.astunparser:Unparser._Repr - self,t
verse.parser.astunparser:Unparser._Return - self,t
verse.parser.astunparser:Unparser._Set - self,t
verse.parser.astunparser:Unparser._SetComp - self,t
verse.parser.astunparser:Unparser._Slice - self,t
verse.parser.astunparser:Unparser._Starred - self,t
verse.parser.astunparser:Unparser._Str - self,tree
verse.parser.astunparser:Unparser._Subscript - self,t
verse.parser.astunparser:Unparser._Try - self,t
verse.parser.astunparser:Unparser._TryExcept - self,t
verse.parser.astunparser:Unparser._TryFinally - self,t
verse.parser.astunparser:Unparser._Tuple - self,t
verse.parser.astunparser:Unparser._UnaryOp - self,t
verse.parser.astunparser:Unparser._While - self,t
verse.parser.astunparser:Unparser._With - self,t
verse.parser.astunparser:Unparser._Yield - self,t
verse.parser.astunparser:Unparser._YieldFrom - self,t
verse.parser.astunparser:Unparser.__For_helper - self,fill,t
verse.parser.astunparser:Unparser.__FunctionDef_helper - self,t,fill_suffix
verse.parser.astunparser:Unparser.__init__ - self,tree,file
verse.parser.astunparser:Unparser._alias - self,t
verse.parser.astunparser:Unparser._arg - self,t
verse.parser.astunparser:Unparser._arguments - self,t
verse.parser.astunparser:Unparser._comprehension - self,t
verse.parser.astunparser:Unparser._fstring_Constant - self,t,write
verse.parser.astunparser:Unparser._fstring_FormattedValue - self,t,write
verse.parser.astunparser:Unparser._fstring_JoinedStr - self,t,write
verse.parser.astunparser:Unparser._fstring_Str - self,t,write
verse.parser.astunparser:Unparser._generic_With - self,t,async_
verse.parser.astunparser:Unparser._keyword - self,t
verse.parser.astunparser:Unparser._withitem - self,t
verse.parser.astunparser:Unparser._write_constant - self,value
verse.parser.astunparser:Unparser.dispatch - self,tree
verse.parser.astunparser:Unparser.enter - self
verse.parser.astunparser:Unparser.fill - self,text
verse.parser.astunparser:Unparser.leave - self
verse.parser.astunparser:Unparser.write - self,text
verse.parser.astunparser:interleave - inter,f,seq
verse.parser.astunparser:main - args
verse.parser.astunparser:roundtrip - filename,output
verse.parser.astunparser:testdir - a
verse.parser.astunparser:unparse - tree
verse.parser.parser:ArgSubstituter.__init__ - self,args
verse.parser.parser:ArgSubstituter.visit_Reduction - self,node
verse.parser.parser:ArgSubstituter.visit_arg - self,node
verse.parser.parser:CondValCase.__eq__ - self,o
verse.parser.parser:ControllerIR.dump s node,dump
verse.parser.parser:ControllerIR.empty s 
verse.parser.parser:ControllerIR.from_env s env
verse.parser.parser:ControllerIR.ir_eq s a,b
verse.parser.parser:ControllerIR.parse s code,fn
verse.parser.parser:CustomIR.__deepcopy__ - self,_memo
verse.parser.parser:CustomIR.__reduce__ - self
verse.parser.parser:CustomIR.set_fields s klass
verse.parser.parser:Env.add_assert - self,expr,label
verse.parser.parser:Env.add_hole - self,name,typ
verse.parser.parser:Env.dump - self,dump
verse.parser.parser:Env.dump_scope s env,dump
verse.parser.parser:Env.lookup - self,key
verse.parser.parser:Env.parse s code,fn
verse.parser.parser:Env.pop - self
verse.parser.parser:Env.push - self
verse.parser.parser:Env.set - self,key,val
verse.parser.parser:Env.trans_args s sv,veri
verse.parser.parser:Lambda.apply - self,args
verse.parser.parser:Lambda.empty s 
verse.parser.parser:Lambda.from_ast s tree,env
verse.parser.parser:ModePath.__eq__ - self,other
verse.parser.parser:Reduction.__eq__ - self,o
verse.parser.parser:Reduction.__repr__ - self
verse.parser.parser:ReductionType.__str__ - self
verse.parser.parser:ReductionType.from_str s s
verse.parser.parser:StateDef.all_vars - self
verse.parser.parser:_Assert.__eq__ - self,o
verse.parser.parser:compile_expr - e
verse.parser.parser:find - l,f
verse.parser.parser:fully_cond - a
verse.parser.parser:is_main_check - node
verse.parser.parser:merge_assert - test,trues,falses,orig
verse.parser.parser:merge_conds - c
verse.parser.parser:merge_if - test,trues,falses,env
verse.parser.parser:merge_if_single - test,true,false,scope
verse.parser.parser:merge_if_val - test,true,false,orig
verse.parser.parser:not_ir_ast - a
verse.parser.parser:proc - node,env
verse.parser.parser:proc_assign - target,val,env
verse.parser.parser:unparse - e
verse.plotter.plotter2D:_apply_video_config_to_plotly_fig - fig,video_config
verse.plotter.plotter2D:_export_reachtube_video_direct - timed_agent_reach_dict,sorted_times,frame_times,agent_list,plot_color,map,map_type,scale_type,x_min,x_max,y_min,y_max,x_dim,y_dim,output_path,duration,video_config,print_level,show_legend,extra_traces
verse.plotter.plotter2D:check_dim - num_dim,x_dim,y_dim,print_dim_list
verse.plotter.plotter2D:create_anime_dict - duration
verse.plotter.plotter2D:display_figure - fig
verse.plotter.plotter2D:draw_map - map,color,fig,fill_type
verse.plotter.plotter2D:get_text_pos - veh_mode
verse.plotter.plotter2D:num_digits - val
verse.plotter.plotter2D:reachtube_anime - root,map,fig,x_dim,y_dim,print_dim_list,map_type,scale_type,label_mode,sample_rate,time_step,speed_rate,combine_rect
verse.plotter.plotter2D:reachtube_tree - root,map,fig,x_dim,y_dim,print_dim_list,map_type,scale_type,label_mode,sample_rate,combine_rect,plot_color
verse.plotter.plotter2D:reachtube_tree_single - root,agent_id,fig,x_dim,y_dim,color,print_dim_list,combine_rect,plot_color
verse.plotter.plotter2D:reachtube_tree_single_slice - root,agent_id,fig,x_dim,y_dim,color,print_dim_list,combine_rect,plot_color,t_lower,t_upper
verse.plotter.plotter2D:reachtube_tree_slice - root,map,fig,x_dim,y_dim,print_dim_list,map_type,scale_type,label_mode,sample_rate,combine_rect,plot_color,t_lower,t_upper
verse.plotter.plotter2D:reachtube_tree_video - root,map,fig,x_dim,y_dim,print_dim_list,map_type,scale_type,label_mode,sample_rate,combine_rect,plot_color,time_step,speed_rate,output_path,max_slider_steps,max_frame_steps,video_config,print_level,show_legend,extra_traces
verse.plotter.plotter2D:sample_trace - root,sample_rate
verse.plotter.plotter2D:simulation_anime - root,map,fig,x_dim,y_dim,print_dim_list,map_type,scale_type,label_mode,sample_rate,time_step,speed_rate,anime_mode,full_trace
verse.plotter.plotter2D:simulation_tree - root,map,fig,x_dim,y_dim,print_dim_list,map_type,scale_type,label_mode,sample_rate,plot_color
verse.plotter.plotter2D:simulation_tree_single - root,agent_id,fig,x_dim,y_dim,color,print_dim_list,plot_color
verse.plotter.plotter2D:update_style - fig
verse.plotter.plotter2D_old:generate_simulation_anime - root,map,fig
verse.plotter.plotter2D_old:plot - data,x_dim,y_dim_list,color,fig,x_lim,y_lim
verse.plotter.plotter2D_old:plot_map - map,color,fig,x_lim,y_lim
verse.plotter.plotter2D_old:plot_reachtube_tree - root,agent_id,x_dim,y_dim_list,color,fig,x_lim,y_lim
verse.plotter.plotter2D_old:plot_simulation_tree - root,agent_id,x_dim,y_dim_list,color,fig,x_lim,y_lim
verse.plotter.plotter3D:plot3dMap - lane_map,color,ax,width,num
verse.plotter.plotter3D:plot3dReachtube - root,agent_id,x_dim,y_dim,z_dim,color,ax,edge
verse.plotter.plotter3D:plot3dReachtubeSingle - tube,x_dim,y_dim,z_dim,ax,color,edge
verse.plotter.plotter3D:plot_line_3d - start,end,ax,color,line_width
verse.plotter.plotter3D:plot_point_3d - points,ax,color,point_size
verse.plotter.plotter3D:plot_polytope_3d - A,b,ax,color,trans,edge
verse.plotter.plotter3D_new:check_dim - num_dim,x_dim,y_dim,z_dim,print_dim_list
verse.plotter.plotter3D_new:draw_map_3d - map,fig,fill_type,color
verse.plotter.plotter3D_new:reachtube_anime_3d - root,fig,x_dim,x_title,y_dim,y_title,z_dim,z_title,print_dim_list,color_array,sample_rate,combine_rect,save,name
verse.plotter.plotter3D_new:reachtube_tree_3d - root,fig,x_dim,x_title,y_dim,y_title,z_dim,z_title,print_dim_list,map,color_array,map_type,sample_rate,xrange,yrange,zrange,combine_rect
verse.plotter.plotter3D_new:reachtube_tree_single_3d - root,agent_id,fig,x_dim,y_dim,z_dim,color_array,theme_id,print_dim_list,combine_rect
verse.plotter.plotter3D_new:sample_trace - root,sample_rate
verse.plotter.plotter3D_new:simulation_tree_3d - root,fig,x_dim,x_title,y_dim,y_title,z_dim,z_title,print_dim_list,map,color_array,map_type,sample_rate,xrange,yrange,zrange
verse.plotter.plotter3D_new:simulation_tree_single_3d - root,agent_id,fig,x_dim,y_dim,z_dim,color_array,theme_id,print_dim_list
verse.plotter.plotter3D_new:update_style - fig,x_title,y_title,z_title
verse.plotter.plotterStar:plot_agent_trace - trace,freq
verse.plotter.plotterStar:plot_reach_tube - traces,agent_id,freq
verse.plotter.plotterStar:plot_reachtube_stars - root,map,x_dim,y_dim,filter
verse.plotter.plotterStar:reachtube_tree_single - root,agent_id,x_dim,y_dim,color
verse.plotter.plotterStar:sample_trace - root,sample_rate
verse.scenario.scenario:Benchmark.__init__ - self,argv,**kw
verse.scenario.scenario:Benchmark.compare_run - self,*a,**kw
verse.scenario.scenario:Benchmark.replace_scenario - self,new_scenario
verse.scenario.scenario:Benchmark.report - self
verse.scenario.scenario:Benchmark.run - self,*a,**kw
verse.scenario.scenario:Benchmark.swap_dl - self,id,alt_ctlr
verse.scenario.scenario:ExprConfig.disp - self
verse.scenario.scenario:ExprConfig.from_arg s a,**kw
verse.scenario.scenario:Scenario.__init__ - self,config
verse.scenario.scenario:Scenario._check_init - self
verse.scenario.scenario:Scenario._get_init_from_agent - self
verse.scenario.scenario:Scenario._update_agent_lane_mode - self,agent,track_map
verse.scenario.scenario:Scenario.add_agent - self,agent
verse.scenario.scenario:Scenario.cleanup_cache - self
verse.scenario.scenario:Scenario.set_init - self,init_list,init_mode_list,static_list,uncertain_param_list
verse.scenario.scenario:Scenario.set_init_single - self,agent_id,init,init_mode,static,uncertain_param
verse.scenario.scenario:Scenario.set_map - self,track_map
verse.scenario.scenario:Scenario.set_sensor - self,sensor
verse.scenario.scenario:Scenario.simulate - self,time_horizon,time_step,max_height,seed
verse.scenario.scenario:Scenario.simulate_multi - self,time_horizon,time_step,init_dict_list,max_height,seed,num_sims
verse.scenario.scenario:Scenario.simulate_simple - self,time_horizon,time_step,max_height,seed
verse.scenario.scenario:Scenario.update_config - self,config
verse.scenario.scenario:Scenario.verify - self,time_horizon,time_step,max_height,params
verse.scenario.scenario:Scenario.verify_partitioned - self,time_horizon,time_step,n,max_height,partition_initial,partition_dims,params
verse.scenario.scenario:_check_ray_init - parallel
verse.sensor.base_sensor:BaseSensor.sense - self,agent,state_dict,lane_map,simulate
verse.sensor.base_sensor:add_states_2d - cont,disc,thing,val,cont_var,disc_var,stat_var
verse.sensor.base_sensor:add_states_3d - cont,disc,thing,val,cont_var,disc_var,stat_var
verse.sensor.base_sensor:adds - d,thing,attrs,vals
verse.sensor.base_sensor:set_states_2d - cnts,disc,thing,val,cont_var,disc_var,stat_var
verse.sensor.base_sensor:set_states_3d - cnts,disc,thing,val,cont_var,disc_var,stat_var
verse.sensor.base_sensor:sets - d,thing,attrs,vals
verse.sensor.base_sensor_stars:BaseStarSensor.sense - self,agent,state_dict,lane_map,simulate
verse.sensor.base_sensor_stars:add_states_2d - cont,disc,thing,val,cont_var,disc_var,stat_var
verse.sensor.base_sensor_stars:add_states_3d - cont,disc,thing,val,cont_var,disc_var,stat_var
verse.sensor.base_sensor_stars:adds - d,thing,attrs,vals,stars
verse.sensor.base_sensor_stars:set_states_2d - cnts,disc,thing,val,cont_var,disc_var,stat_var
verse.sensor.base_sensor_stars:set_states_3d - cnts,disc,thing,val,cont_var,disc_var,stat_var
verse.sensor.base_sensor_stars:sets - d,thing,attrs,vals,stars
verse.sensor.example_sensor.craft_sensor:CraftSensor.sense - self,agent,state_dict,lane_map,simulate
verse.sensor.example_sensor.craft_sensor:add_states_2d_ball - cont,disc,thing,val
verse.sensor.example_sensor.craft_sensor:add_states_3d_ball - cont,disc,thing,val
verse.sensor.example_sensor.craft_sensor:adds - d,thing,attrs,vals
verse.sensor.example_sensor.craft_sensor:set_states_2d_ball - cnts,disc,thing,val
verse.sensor.example_sensor.craft_sensor:set_states_3d_ball - cnts,disc,thing,val
verse.sensor.example_sensor.craft_sensor:sets - d,thing,attrs,vals
verse.sensor.example_sensor.craft_star_sensor:CraftStarSensor.sense - self,agent,state_dict,lane_map,simulate
verse.sensor.example_sensor.craft_star_sensor:add_states_2d_ball - cont,disc,thing,val
verse.sensor.example_sensor.craft_star_sensor:add_states_3d_ball - cont,disc,thing,val
verse.sensor.example_sensor.craft_star_sensor:adds - d,thing,attrs,vals,stars
verse.sensor.example_sensor.craft_star_sensor:set_states_2d_ball - cnts,disc,thing,val
verse.sensor.example_sensor.craft_star_sensor:set_states_3d_ball - cnts,disc,thing,val
verse.sensor.example_sensor.craft_star_sensor:sets - d,thing,attrs,vals,stars
verse.sensor.example_sensor.quadrotor_sensor:QuadrotorSensor.sense - self,agent,state_dict,lane_map,simulate
verse.sensor.example_sensor.quadrotor_sensor:add_states_2d_ball - cont,disc,thing,val
verse.sensor.example_sensor.quadrotor_sensor:add_states_3d_ball - cont,disc,thing,val
verse.sensor.example_sensor.quadrotor_sensor:adds - d,thing,attrs,vals
verse.sensor.example_sensor.quadrotor_sensor:set_states_2d_ball - cnts,disc,thing,val
verse.sensor.example_sensor.quadrotor_sensor:set_states_3d_ball - cnts,disc,thing,val
verse.sensor.example_sensor.quadrotor_sensor:sets - d,thing,attrs,vals
verse.sensor.example_sensor.single_sensor:FakeSensor4.sense - self,agent,state_dict,lane_map
verse.sensor.example_sensor.single_sensor:SingleSensor.sense - self,agent,state_dict,lane_map,simulate
verse.sensor.example_sensor.single_sensor:add_states_2d - cont,disc,thing,val,cont_var,disc_var,stat_var
verse.sensor.example_sensor.single_sensor:add_states_2d_ball - cont,disc,thing,val
verse.sensor.example_sensor.single_sensor:add_states_3d - cont,disc,thing,val,cont_var,disc_var,stat_var
verse.sensor.example_sensor.single_sensor:add_states_3d_ball - cont,disc,thing,val
verse.sensor.example_sensor.single_sensor:adds - d,thing,attrs,vals
verse.sensor.example_sensor.single_sensor:set_states_2d - cnts,disc,thing,val,cont_var,disc_var,stat_var
verse.sensor.example_sensor.single_sensor:set_states_2d_ball - cnts,disc,thing,val
verse.sensor.example_sensor.single_sensor:set_states_3d - cnts,disc,thing,val,cont_var,disc_var,stat_var
verse.sensor.example_sensor.single_sensor:set_states_3d_ball - cnts,disc,thing,val
verse.sensor.example_sensor.single_sensor:sets - d,thing,attrs,vals
verse.sensor.example_sensor.thermo_sensor:ThermoSensor.sense - self,agent,state_dict,lane_map,simulate
verse.sensor.example_sensor.thermo_sensor:add_states_2d_ball - cont,disc,thing,val
verse.sensor.example_sensor.thermo_sensor:add_states_3d_ball - cont,disc,thing,val
verse.sensor.example_sensor.thermo_sensor:adds - d,thing,attrs,vals
verse.sensor.example_sensor.thermo_sensor:set_states_2d_ball - cnts,disc,thing,val
verse.sensor.example_sensor.thermo_sensor:set_states_3d_ball - cnts,disc,thing,val
verse.sensor.example_sensor.thermo_sensor:sets - d,thing,attrs,vals
verse.stars.reach_at_star:reach_star - traces,t_l,t_u
verse.stars.reach_at_star:time_step_diameter - trace,time_horizon,time_step
verse.stars.starset:HalfSpace.__init__ - self,H,g
verse.stars.starset:StarSet.__init__ - self,center,basis,C,g
verse.stars.starset:StarSet.add_constraints - self,cur_solver,state_vec,agent
verse.stars.starset:StarSet.apply_reset - self,reset_function,expr_list,reset_vars
verse.stars.starset:StarSet.calc_reach_tube - self,mode_label,time_horizon,time_step,sim_func,bloating_method,kvalue,sim_trace_num,lane_map,pca
verse.stars.starset:StarSet.calc_reach_tube_linear - self,mode_label,time_horizon,time_step,sim_func,lane_map
verse.stars.starset:StarSet.combine_stars - stars
verse.stars.starset:StarSet.contain_point - self,pt
verse.stars.starset:StarSet.contains_point - self,point
verse.stars.starset:StarSet.copy - self
verse.stars.starset:StarSet.dimension - self
verse.stars.starset:StarSet.from_poly - constraint_mat,rhs
verse.stars.starset:StarSet.from_polytope - polytope
verse.stars.starset:StarSet.get_center_pt - self,x_dim,y_dim
verse.stars.starset:StarSet.get_halfspace_intersection - starset,constraint_vec,rhs_val
verse.stars.starset:StarSet.get_max_min - self,i
verse.stars.starset:StarSet.get_true_center - self
verse.stars.starset:StarSet.get_verts - stateset,dim1,dim2
verse.stars.starset:StarSet.intersect - star1,star2
verse.stars.starset:StarSet.intersection_halfspace - self,constraint_vec,rhs_val
verse.stars.starset:StarSet.intersection_poly - self,constraint_mat,rhs
verse.stars.starset:StarSet.is_empty - self
verse.stars.starset:StarSet.is_feasible - n,constraint_mat,rhs,equal_mat,equal_rhs
verse.stars.starset:StarSet.maximize - self,opt_direction
verse.stars.starset:StarSet.overapprox_rectangle - self
verse.stars.starset:StarSet.overapprox_rectangles - self
verse.stars.starset:StarSet.plot - self
verse.stars.starset:StarSet.post_cont - self,simulate,t
verse.stars.starset:StarSet.print - self
verse.stars.starset:StarSet.rect_to_star - min_list,max_list
verse.stars.starset:StarSet.satisfies - self,constraint_vec,rhs
verse.stars.starset:StarSet.show - self
verse.stars.starset:StarSet.starcopy - self
verse.stars.starset:StarSet.superposition - self,new_center,new_basis
verse.stars.starset:StarSet.to_poly - self
verse.stars.starset:StarSet.union - 
verse.stars.starset:check_unsat - old_star,derived_basis,point,ncenter
verse.stars.starset:containment_poly - star,point
verse.stars.starset:gen_starset - points,old_star
verse.stars.starset:gen_starsets_post_sim - old_star,sim,T,ts,N,no_init,mode_label
verse.stars.starset:gen_starsets_post_sim_vis - old_star,sim,T,ts,N,no_init
verse.stars.starset:gen_starsets_post_sim_vis_nonit - old_star,sim,T,ts,N,no_init
verse.stars.starset:gen_starsets_post_sim_vis_nonit_nd - old_star,sim,T,ts,N,no_init,dim1,dim2
verse.stars.starset:new_pred - old_star
verse.stars.starset:plot_stars_points - stars,points
verse.stars.starset:plot_stars_points_nonit - stars,points
verse.stars.starset:plot_stars_points_nonit_nd - stars,points,dim1,dim2
verse.stars.starset:post_cont_pca - old_star,derived_basis,points,usat
verse.stars.starset:sample_star - star,N,tol
verse.stars.starset:sim_star - init_star,sim,T,ts,N
verse.stars.starset:sim_star_vis - init_star,sim,T,ts,N
verse.stars.startests:dyn_3d - vec,t
verse.stars.startests:dynamics_test - vec,t
verse.stars.startests:plot_stars - stars,dim1,dim2
verse.stars.startests:sim - vec,t
verse.stars.startests:sim_simple - vec,t
verse.stars.startests:sim_test - mode,initialCondition,time_bound,time_step
verse.stars.startests:sim_test_3d - mode,initialCondition,time_bound,time_step
verse.stars.startests:sim_ugly - vec,t
verse.utils.fixed_points:contain_all_fix - reach1,reach2
verse.utils.fixed_points:fixed_points_fix - tree,T,t_step
verse.utils.fixed_points:pp_fix - reach_set
verse.utils.fixed_points:reach_at_fix - tree,t_lower,t_upper
verse.utils.star_diams:manhattan - a,b
verse.utils.star_diams:over_approx_rectangle - trace,time_horizon,time_step
verse.utils.star_diams:reach_star - traces,t_l,t_u
verse.utils.star_diams:sim_traces_to_diameters - sim_traces
verse.utils.star_diams:sim_traces_to_dict_composed - sim_traces
verse.utils.star_diams:time_step_diameter - trace,time_horizon,time_step
verse.utils.star_diams:time_step_diameter_rect - tree,time_horizon,time_step
verse.utils.star_manhattan:star_manhattan_distance - center,basis,C,g
verse.utils.utils:are_polygons_intersecting - a,b,displacement_a,displacement_b
verse.utils.utils:class_from_path - path
verse.utils.utils:confidence_ellipsoid - data,lambda_,delta,sigma,param_bound
verse.utils.utils:confidence_polytope - data,parameter_box
verse.utils.utils:constrain - x,a,b
verse.utils.utils:dedup - l,f
verse.utils.utils:distance_to_circle - center,radius,direction
verse.utils.utils:distance_to_rect - line,rect
verse.utils.utils:do_every - duration,timer
verse.utils.utils:get_class_path - cls
verse.utils.utils:has_corner_inside - rect1,rect2
verse.utils.utils:interval_distance - min_a,max_a,min_b,max_b
verse.utils.utils:is_consistent_dataset - data,parameter_box
verse.utils.utils:is_valid_observation - y,phi,theta,gramian,beta,sigma
verse.utils.utils:lmap - v,x,y
verse.utils.utils:near_split - x,num_bins,size_bins
verse.utils.utils:not_zero - x,eps
verse.utils.utils:point_in_ellipse - point,center,angle,length,width
verse.utils.utils:point_in_rectangle - point,rect_min,rect_max
verse.utils.utils:point_in_rotated_rectangle - point,center,length,width,angle
verse.utils.utils:project_polygon - polygon,axis
verse.utils.utils:rect_corners - center,length,width,angle,include_midpoints,include_center
verse.utils.utils:rotated_rectangles_intersect - rect1,rect2
verse.utils.utils:sample_rect - rect,seed
verse.utils.utils:solve_trinom - a,b,c
verse.utils.utils:to_serializable - arg
verse.utils.utils:wrap_to_pi - x
"""
SIG = {}
for _l in TABLE.split("\n"):
    if _l.strip():
        _n, _k, _p = (_l + " ").split(" ")[:3]
        SIG[_n] = (_k, tuple(_p.split(",")) if _p else ())
KNOWN = frozenset(SIG)
