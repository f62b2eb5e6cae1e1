// C05: the compact text of a document, parsed back
property C05 {
  funcs "JSONObject.buildString", "JSONObject.String", "ParseString"
  lemmas roundtrip, roundtrip_eq, sim_deq, rt_gv, rt_mv, text_canon, text_flat, text_a, text_d, mv_isdoc, mv_flat, mv_arr, mv_dict
  safety termination
}
