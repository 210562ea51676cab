{"client.answers_cuckoo", {1.85e+03, 2.82e+03, 4.31e+03, 2.78e+03, 0, 45}},
{"client.answers_dense", {438, 1.28e+03, 1.94e+03, 1.15e+03, 0, 12}},
{"client.answers_simple", {3.01e+03, 6.09e+03, 7.92e+03, 3.69e+03, 0, 96}},
{"client.log_records_cuckoo", {1.04e+04, 7.12e+03, 2.1e+04, 1.87e+04, 2.99e+03, 113}},
{"client.log_records_dense", {3.6e+03, 2.39e+03, 7.16e+03, 6.46e+03, 1.02e+03, 37.8}},
{"client.log_records_simple", {3.72e+03, 2.54e+03, 7.4e+03, 6.56e+03, 1.03e+03, 37.8}},
{"client.queries_cuckoo", {3.46e+04, 2.34e+04, 6.94e+04, 6.22e+04, 9.97e+03, 378}},
{"client.queries_dense", {1.11e+04, 7.32e+03, 2.29e+04, 2.01e+04, 3.13e+03, 114}},
{"client.queries_simple", {1.14e+04, 7.72e+03, 2.27e+04, 2e+04, 3.18e+03, 114}},
{"db.build_cuckoo", {22.4, 35.5, 51.3, 25.6, 0, 0}},
{"db.build_dense", {1.46, 7.48, 12.5, 9.42, 0, 0}},
{"db.build_simple", {7.15, 25.4, 46.8, 32.9, 0, 0}},
{"dcf.batch_keys", {408, 74.2, 652, 141, 0, 3}},
{"dcf.evaluate_domain", {1.41e+03, 3.67, 1.5e+04, 1.07e+03, 0, 8.95}},
{"dcf.generate_domain", {2.84e+03, 181, 4.78e+03, 3.43e+03, 285, 17.9}},
{"dpf.continue_prefixes/mod", {1.05e+03, 202, 1.87e+03, 847, 0, 12}},
{"dpf.continue_prefixes/tuple", {1.1e+03, 81.9, 2.12e+03, 1.05e+03, 0, 12}},
{"dpf.continue_prefixes/u128", {1.09e+03, 242, 2.13e+03, 1.05e+03, 0, 12}},
{"dpf.continue_prefixes/u64", {1.02e+03, 440, 2.14e+03, 1.25e+03, 0, 12}},
{"dpf.continue_prefixes/u8", {1.45e+03, 286, 1.98e+03, 1.16e+03, 0, 11.8}},
{"dpf.continue_prefixes/x32", {1.02e+03, 359, 2.07e+03, 1.38e+03, 0, 12}},
{"dpf.continue_some/mod", {607, 175, 1.85e+03, 735, 0, 9.73}},
{"dpf.continue_some/tuple", {589, 69.1, 1.63e+03, 610, 0, 8.78}},
{"dpf.continue_some/u128", {487, 173, 1.5e+03, 589, 0, 8.33}},
{"dpf.continue_some/u64", {584, 289, 1.68e+03, 661, 0, 8.71}},
{"dpf.continue_some/u8", {1.07e+03, 211, 1.53e+03, 679, 0, 9.32}},
{"dpf.continue_some/x32", {578, 232, 1.58e+03, 635, 0, 8.09}},
{"dpf.continue_some_points/mod", {406, 18.3, 1.02e+03, 427, 0, 2.72}},
{"dpf.continue_some_points/tuple", {338, 16, 865, 336, 0, 2.04}},
{"dpf.continue_some_points/u128", {313, 10.6, 846, 353, 0, 1.89}},
{"dpf.continue_some_points/u64", {359, 41.8, 999, 466, 0, 2.1}},
{"dpf.continue_some_points/u8", {376, 18.3, 834, 405, 0, 1.72}},
{"dpf.continue_some_points/x32", {381, 28, 976, 456, 0, 2.17}},
{"dpf.create_levels/mod", {2.71e+03, 1.55e+03, 6.09e+03, 4.04e+03, 0, 0}},
{"dpf.create_levels/tuple", {2.9e+03, 714, 6.39e+03, 3.83e+03, 0, 0}},
{"dpf.create_levels/u128", {1.29e+03, 624, 2.87e+03, 1.99e+03, 0, 0}},
{"dpf.create_levels/u64", {1.29e+03, 623, 2.87e+03, 1.99e+03, 0, 0}},
{"dpf.create_levels/u8", {1.29e+03, 623, 2.87e+03, 1.99e+03, 0, 0}},
{"dpf.create_levels/x32", {1.48e+03, 625, 3e+03, 1.99e+03, 0, 0}},
{"dpf.evaluate_and_apply/mod", {344, 94.3, 937, 190, 0, 3}},
{"dpf.evaluate_and_apply/tuple", {491, 92, 937, 112, 0, 3}},
{"dpf.evaluate_and_apply/u128", {281, 88.3, 829, 132, 0, 3}},
{"dpf.evaluate_and_apply/u64", {391, 87, 799, 111, 0, 3}},
{"dpf.evaluate_and_apply/u8", {1.43e+03, 86.7, 798, 94.8, 0, 3}},
{"dpf.evaluate_and_apply/x32", {589, 63.7, 810, 94.4, 0, 3}},
{"dpf.evaluate_at_domain/mod", {9.73, 4.09, 37.1, 28.2, 0, 0.353}},
{"dpf.evaluate_at_domain/mod_unaligned", {44.9, 5.97, 52.7, 35.9, 0, 5.68}},
{"dpf.evaluate_at_domain/tuple", {5.81, 0.768, 21.4, 16.2, 0, 0.167}},
{"dpf.evaluate_at_domain/tuple_unaligned", {45.7, 5.06, 28.5, 17.1, 0, 5.88}},
{"dpf.evaluate_at_domain/u128", {5.25, 0.889, 21.9, 16.7, 0, 0.167}},
{"dpf.evaluate_at_domain/u128_unaligned", {45.7, 5.07, 29, 18.6, 0, 5.88}},
{"dpf.evaluate_at_domain/u64", {7.89, 3.14, 24.7, 19.9, 0, 0.167}},
{"dpf.evaluate_at_domain/u64_unaligned", {7.98, 3.14, 24.7, 20.5, 0, 0.167}},
{"dpf.evaluate_at_domain/u8", {12.4, 1.04, 22.8, 18.4, 0, 0.167}},
{"dpf.evaluate_at_domain/u8_unaligned", {12.4, 1.14, 21.7, 18.5, 0, 0.167}},
{"dpf.evaluate_at_domain/x32", {8.44, 2.09, 24.4, 19.9, 0, 0.167}},
{"dpf.evaluate_at_domain/x32_unaligned", {8.46, 2.02, 24.7, 20.1, 0, 0.167}},
{"dpf.evaluate_at_points/mod", {6.13, 2.37, 18, 17.2, 0, 0.273}},
{"dpf.evaluate_at_points/mod_unaligned", {43.9, 5.84, 17.2, 15.8, 0, 5.68}},
{"dpf.evaluate_at_points/tuple", {4.83, 0.381, 16.1, 15.6, 0, 0.188}},
{"dpf.evaluate_at_points/tuple_unaligned", {45, 4.94, 13.4, 12, 0, 5.88}},
{"dpf.evaluate_at_points/u128", {4.78, 0.323, 15.9, 15.6, 0, 0.188}},
{"dpf.evaluate_at_points/u128_unaligned", {45, 4.95, 18, 16.7, 0, 5.88}},
{"dpf.evaluate_at_points/u64", {7.44, 2.7, 17.8, 17.3, 0, 0.176}},
{"dpf.evaluate_at_points/u64_unaligned", {8.84, 3.26, 21.3, 20.8, 0, 0.214}},
{"dpf.evaluate_at_points/u8", {17.3, 0.986, 24.4, 23.7, 0, 0.273}},
{"dpf.evaluate_at_points/u8_unaligned", {12.9, 0.675, 17.9, 17.2, 0, 0.2}},
{"dpf.evaluate_at_points/x32", {10.5, 2.19, 23.5, 22.8, 0, 0.25}},
{"dpf.evaluate_at_points/x32_unaligned", {5.48, 1.07, 11.6, 10.9, 0, 0.115}},
{"dpf.evaluate_prefixes/mod", {267, 107, 1.08e+03, 881, 0, 8.81}},
{"dpf.evaluate_prefixes/tuple", {286, 47.6, 1.23e+03, 924, 0, 8.81}},
{"dpf.evaluate_prefixes/u128", {281, 129, 1.17e+03, 894, 0, 8.81}},
{"dpf.evaluate_prefixes/u64", {286, 207, 1.17e+03, 896, 0, 8.81}},
{"dpf.evaluate_prefixes/u8", {400, 98.8, 828, 653, 0, 6.76}},
{"dpf.evaluate_prefixes/x32", {297, 160, 1.08e+03, 849, 0, 8.46}},
{"dpf.expand/mod", {90.5, 20, 307, 202, 0, 9}},
{"dpf.expand/tuple", {111, 0.078, 368, 253, 0, 9}},
{"dpf.expand/u128", {99.2, 0, 365, 253, 0, 9}},
{"dpf.expand/u64", {61.4, 40, 200, 130, 0, 4.5}},
{"dpf.expand/u8", {30.1, 5, 56.1, 42.6, 0, 0.562}},
{"dpf.expand/x32", {38.1, 20, 118, 74.5, 0, 2.25}},
{"dpf.generate_domain/mod", {1.15e+03, 142, 1.65e+03, 1.35e+03, 162, 12.1}},
{"dpf.generate_domain/tuple", {941, 60, 1.62e+03, 1.46e+03, 156, 12.4}},
{"dpf.generate_domain/u128", {754, 46, 1.31e+03, 1.25e+03, 155, 12.4}},
{"dpf.generate_domain/u64", {759, 51, 1.3e+03, 1.22e+03, 149, 11.9}},
{"dpf.generate_domain/u8", {1.4e+03, 184, 2.49e+03, 2.27e+03, 145, 11.6}},
{"dpf.generate_domain/x32", {836, 66.7, 1.43e+03, 1.31e+03, 142, 11.9}},
{"dpf.generate_levels/mod", {3.24e+03, 360, 4.38e+03, 2.52e+03, 196, 18}},
{"dpf.generate_levels/tuple", {5.62e+03, 452, 9.16e+03, 5.67e+03, 291, 18}},
{"dpf.generate_levels/u128", {2.71e+03, 242, 4.22e+03, 2.92e+03, 282, 18}},
{"dpf.generate_levels/u64", {3.28e+03, 275, 4.97e+03, 3.36e+03, 283, 17.9}},
{"dpf.generate_levels/u8", {1.42e+04, 1.34e+03, 2.44e+04, 1.68e+04, 662, 17.9}},
{"dpf.generate_levels/x32", {5.04e+03, 403, 7.87e+03, 5.26e+03, 337, 17.9}},
{"dpf.walk_points/mod", {357, 56.1, 1.11e+03, 287, 0, 2.82}},
{"dpf.walk_points/tuple", {358, 20.1, 972, 72.2, 0, 2.46}},
{"dpf.walk_points/u128", {349, 19.3, 947, 70.7, 0, 2.46}},
{"dpf.walk_points/u64", {391, 47.1, 1.01e+03, 76.2, 0, 2.46}},
{"dpf.walk_points/u8", {458, 22.7, 939, 75.2, 0, 2.46}},
{"dpf.walk_points/x32", {399, 33.6, 980, 75.1, 0, 2.45}},
{"dpf.walk_prefixes/mod", {504, 167, 1.97e+03, 444, 0, 16}},
{"dpf.walk_prefixes/tuple", {599, 70.5, 1.93e+03, 104, 0, 10.2}},
{"dpf.walk_prefixes/u128", {546, 191, 1.91e+03, 105, 0, 10.2}},
{"dpf.walk_prefixes/u64", {566, 314, 1.83e+03, 102, 0, 9.66}},
{"dpf.walk_prefixes/u8", {864, 177, 1.57e+03, 102, 0, 7.7}},
{"dpf.walk_prefixes/x32", {584, 248, 1.75e+03, 101, 0, 9.05}},
{"hash.fixed_key", {10.1, 0, 0, 0, 0, 3}},
{"hash.functions", {104, 942, 1.12e+03, 785, 0, 0}},
{"hash.input_length", {0.083, 2.75, 0, 0, 0, 0}},
{"mic.evaluate", {692, 273, 2.93e+03, 354, 0, 6}},
{"mic.generate", {1.1e+03, 76.4, 2.4e+03, 2.02e+03, 0, 4.48}},
{"pair.queries_cuckoo", {154, 106, 473, 71.9, 0.0635, 11.5}},
{"pair.queries_dense", {26.7, 18.1, 85.9, 17.2, 0.0155, 1.92}},
{"pair.queries_simple", {26, 19, 86.9, 17.3, 0.156, 1.92}},
{"prng.many_reads", {1.18, 4.25, 5, 0.0155, 0, 0.184}},
{"prng.one_read", {0.066, 5, 5.2, 5.2, 0, 0.196}},
{"server.queries_cuckoo", {45.6, 27.5, 123, 32.4, 0.037, 3.07}},
{"server.queries_dense", {8.33, 5.16, 24.6, 8.11, 0.0095, 0.575}},
{"server.queries_simple", {7.06, 4.71, 22, 7.21, 0.0835, 0.511}},
{"server.records_cuckoo", {72.5, 51.3, 216, 64.8, 0, 5.76}},
{"server.records_dense", {12.3, 8.12, 34.8, 23.5, 0, 0.911}},
{"server.records_simple", {9.08, 6.23, 26.6, 17.5, 0, 0.695}},
{"table.cuckoo", {143, 915, 297, 208, 0, 0}},
{"table.multiple_choice", {156, 1.51e+03, 724, 425, 0, 0}},
{"table.read", {5.02, 0, 0, 0, 0, 0}},
{"table.simple", {112, 570, 754, 437, 0, 0}},
