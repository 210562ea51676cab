{"client.answers_cuckoo", {1.85e+03, 2.82e+03, 4.31e+03, 2.78e+03, 0, 45}},
{"client.answers_dense", {438, 1.28e+03, 1.94e+03, 1.15e+03, 0, 12}},
{"client.answers_simple", {3.01e+03, 6.09e+03, 7.92e+03, 3.69e+03, 0, 96}},
{"client.log_records_cuckoo", {1.04e+04, 7.12e+03, 2.1e+04, 1.88e+04, 2.99e+03, 113}},
{"client.log_records_dense", {3.59e+03, 2.39e+03, 7.16e+03, 6.46e+03, 1.02e+03, 37.8}},
{"client.log_records_simple", {3.72e+03, 2.54e+03, 7.4e+03, 6.56e+03, 1.03e+03, 37.8}},
{"client.queries_cuckoo", {3.45e+04, 2.34e+04, 6.93e+04, 6.21e+04, 9.97e+03, 378}},
{"client.queries_dense", {1.11e+04, 7.32e+03, 2.27e+04, 2e+04, 3.13e+03, 114}},
{"client.queries_simple", {1.14e+04, 7.72e+03, 2.27e+04, 2.01e+04, 3.18e+03, 114}},
{"db.build_cuckoo", {22.4, 35.5, 51.3, 25.5, 0, 0}},
{"db.build_dense", {1.46, 7.48, 12.5, 9.42, 0, 0}},
{"db.build_simple", {7.15, 25.4, 46.7, 32.9, 0, 0}},
{"dcf.batch_keys", {475, 38.9, 1.38e+03, 217, 0, 8.9}},
{"dcf.evaluate_domain", {1.4e+03, 3.67, 1.5e+04, 1.02e+03, 0, 8.95}},
{"dcf.generate_domain", {2.84e+03, 181, 4.69e+03, 3.37e+03, 285, 17.9}},
{"dpf.continue_prefixes/mod", {1.17e+03, 215, 1.89e+03, 848, 0, 30}},
{"dpf.continue_prefixes/tuple", {1.21e+03, 95.2, 2.14e+03, 1.05e+03, 0, 30}},
{"dpf.continue_prefixes/u128", {1.21e+03, 255, 2.15e+03, 1.05e+03, 0, 30}},
{"dpf.continue_prefixes/u64", {1.14e+03, 454, 2.16e+03, 1.25e+03, 0, 30}},
{"dpf.continue_prefixes/u8", {1.57e+03, 300, 2e+03, 1.16e+03, 0, 29.6}},
{"dpf.continue_prefixes/x32", {1.14e+03, 373, 2.09e+03, 1.38e+03, 0, 30}},
{"dpf.continue_some/mod", {650, 166, 2.07e+03, 794, 0, 14.6}},
{"dpf.continue_some/tuple", {620, 62.9, 1.81e+03, 655, 0, 13.2}},
{"dpf.continue_some/u128", {518, 170, 1.64e+03, 589, 0, 12.5}},
{"dpf.continue_some/u64", {620, 292, 1.85e+03, 661, 0, 13.1}},
{"dpf.continue_some/u8", {1.1e+03, 206, 1.63e+03, 679, 0, 14}},
{"dpf.continue_some/x32", {613, 219, 1.78e+03, 670, 0, 12.1}},
{"dpf.continue_some_points/mod", {448, 22.8, 1.23e+03, 421, 0, 8.15}},
{"dpf.continue_some_points/tuple", {368, 4.24, 1.06e+03, 375, 0, 6.12}},
{"dpf.continue_some_points/u128", {343, 3.29, 1e+03, 353, 0, 5.66}},
{"dpf.continue_some_points/u64", {395, 30.9, 1.17e+03, 460, 0, 6.3}},
{"dpf.continue_some_points/u8", {408, 5.85, 1.02e+03, 444, 0, 5.17}},
{"dpf.continue_some_points/x32", {413, 18.2, 1.13e+03, 456, 0, 6.5}},
{"dpf.create_levels/mod", {2.71e+03, 1.55e+03, 6.09e+03, 4.04e+03, 0, 0}},
{"dpf.create_levels/tuple", {2.9e+03, 714, 6.39e+03, 3.83e+03, 0, 0}},
{"dpf.create_levels/u128", {1.29e+03, 624, 2.87e+03, 1.99e+03, 0, 0}},
{"dpf.create_levels/u64", {1.29e+03, 623, 2.87e+03, 1.99e+03, 0, 0}},
{"dpf.create_levels/u8", {1.29e+03, 623, 2.87e+03, 1.99e+03, 0, 0}},
{"dpf.create_levels/x32", {1.48e+03, 625, 3e+03, 1.99e+03, 0, 0}},
{"dpf.evaluate_and_apply/mod", {423, 13.8, 1.79e+03, 349, 0, 9}},
{"dpf.evaluate_and_apply/tuple", {570, 10.1, 1.79e+03, 152, 0, 9}},
{"dpf.evaluate_and_apply/u128", {360, 8.75, 1.68e+03, 178, 0, 9}},
{"dpf.evaluate_and_apply/u64", {469, 17.5, 1.64e+03, 140, 0, 8.95}},
{"dpf.evaluate_and_apply/u8", {1.5e+03, 8.75, 1.64e+03, 122, 0, 8.95}},
{"dpf.evaluate_and_apply/x32", {667, 12.5, 1.65e+03, 122, 0, 8.95}},
{"dpf.evaluate_at_domain/mod", {44.7, 5.96, 50.2, 33.8, 0, 5.68}},
{"dpf.evaluate_at_domain/mod_unaligned", {44.9, 5.97, 53.8, 37.6, 0, 5.68}},
{"dpf.evaluate_at_domain/tuple", {45.6, 5.05, 27.2, 16.2, 0, 5.88}},
{"dpf.evaluate_at_domain/tuple_unaligned", {45.7, 5.06, 29, 17.8, 0, 5.88}},
{"dpf.evaluate_at_domain/u128", {45.7, 5.07, 29.2, 18.8, 0, 5.88}},
{"dpf.evaluate_at_domain/u128_unaligned", {45.7, 5.07, 29.2, 18.8, 0, 5.88}},
{"dpf.evaluate_at_domain/u64", {45.7, 6.47, 31.5, 23, 0, 5.83}},
{"dpf.evaluate_at_domain/u64_unaligned", {45.7, 6.47, 31.5, 23, 0, 5.83}},
{"dpf.evaluate_at_domain/u8", {45.3, 4.93, 29.9, 23.2, 0, 5.68}},
{"dpf.evaluate_at_domain/u8_unaligned", {45.1, 4.94, 31.1, 24.3, 0, 5.68}},
{"dpf.evaluate_at_domain/x32", {45.5, 5.14, 31.4, 24.3, 0, 5.78}},
{"dpf.evaluate_at_domain/x32_unaligned", {45.5, 5.13, 31.9, 24.8, 0, 5.78}},
{"dpf.evaluate_at_points/mod", {43.5, 5.92, 19, 17.3, 0, 5.63}},
{"dpf.evaluate_at_points/mod_unaligned", {43.9, 5.84, 17.2, 15.8, 0, 5.68}},
{"dpf.evaluate_at_points/tuple", {44.9, 4.93, 16.7, 15.6, 0, 5.87}},
{"dpf.evaluate_at_points/tuple_unaligned", {45, 4.94, 13.3, 12, 0, 5.88}},
{"dpf.evaluate_at_points/u128", {44.9, 4.93, 16.8, 15.6, 0, 5.87}},
{"dpf.evaluate_at_points/u128_unaligned", {45, 4.95, 18.1, 16.7, 0, 5.88}},
{"dpf.evaluate_at_points/u64", {45, 6.48, 18.6, 17.3, 0, 5.83}},
{"dpf.evaluate_at_points/u64_unaligned", {45, 6.79, 22.1, 20.9, 0, 5.83}},
{"dpf.evaluate_at_points/u8", {44.5, 4.82, 25.7, 23.6, 0, 5.67}},
{"dpf.evaluate_at_points/u8_unaligned", {44.5, 4.82, 18.8, 17.3, 0, 5.68}},
{"dpf.evaluate_at_points/x32", {44.7, 5.03, 24.7, 22.9, 0, 5.78}},
{"dpf.evaluate_at_points/x32_unaligned", {44.7, 5.03, 12.5, 10.9, 0, 5.78}},
{"dpf.evaluate_prefixes/mod", {507, 131, 1.14e+03, 882, 0, 39}},
{"dpf.evaluate_prefixes/tuple", {530, 71.2, 1.31e+03, 925, 0, 39}},
{"dpf.evaluate_prefixes/u128", {520, 151, 1.23e+03, 888, 0, 39}},
{"dpf.evaluate_prefixes/u64", {505, 228, 1.24e+03, 894, 0, 36}},
{"dpf.evaluate_prefixes/u8", {511, 111, 879, 652, 0, 19.5}},
{"dpf.evaluate_prefixes/x32", {490, 182, 1.16e+03, 853, 0, 32.2}},
{"dpf.expand/mod", {90.5, 20, 307, 202, 0, 9}},
{"dpf.expand/tuple", {111, 0.078, 368, 253, 0, 9}},
{"dpf.expand/u128", {99.2, 0, 365, 253, 0, 9}},
{"dpf.expand/u64", {61.4, 40, 200, 130, 0, 4.5}},
{"dpf.expand/u8", {30.1, 5, 56.1, 42.6, 0, 0.562}},
{"dpf.expand/x32", {38.1, 20, 118, 74.5, 0, 2.25}},
{"dpf.generate_domain/mod", {1.15e+03, 142, 1.65e+03, 1.35e+03, 162, 12.1}},
{"dpf.generate_domain/tuple", {940, 60, 1.62e+03, 1.46e+03, 156, 12.4}},
{"dpf.generate_domain/u128", {755, 46, 1.31e+03, 1.25e+03, 155, 12.4}},
{"dpf.generate_domain/u64", {759, 51, 1.29e+03, 1.21e+03, 149, 11.9}},
{"dpf.generate_domain/u8", {1.4e+03, 184, 2.49e+03, 2.27e+03, 145, 11.6}},
{"dpf.generate_domain/x32", {836, 66.7, 1.43e+03, 1.31e+03, 142, 11.9}},
{"dpf.generate_levels/mod", {3.24e+03, 360, 4.38e+03, 2.52e+03, 196, 18}},
{"dpf.generate_levels/tuple", {5.62e+03, 452, 9.16e+03, 5.67e+03, 291, 18}},
{"dpf.generate_levels/u128", {2.73e+03, 242, 4.23e+03, 2.92e+03, 282, 18}},
{"dpf.generate_levels/u64", {3.28e+03, 275, 4.97e+03, 3.36e+03, 283, 17.9}},
{"dpf.generate_levels/u8", {1.42e+04, 1.34e+03, 2.44e+04, 1.68e+04, 662, 17.9}},
{"dpf.generate_levels/x32", {5.04e+03, 403, 7.87e+03, 5.24e+03, 337, 17.9}},
{"dpf.walk_points/mod", {460, 50.9, 1.31e+03, 288, 0, 16.9}},
{"dpf.walk_points/tuple", {408, 11.5, 1.14e+03, 71.8, 0, 9.49}},
{"dpf.walk_points/u128", {399, 11, 1.12e+03, 70.9, 0, 9.49}},
{"dpf.walk_points/u64", {438, 43, 1.18e+03, 76.4, 0, 9.14}},
{"dpf.walk_points/u8", {498, 13.9, 1.12e+03, 75, 0, 8.09}},
{"dpf.walk_points/x32", {443, 26.8, 1.16e+03, 75.4, 0, 8.77}},
{"dpf.walk_prefixes/mod", {601, 163, 2.18e+03, 440, 0, 28}},
{"dpf.walk_prefixes/tuple", {647, 67.5, 2.11e+03, 104, 0, 16.9}},
{"dpf.walk_prefixes/u128", {595, 189, 2.07e+03, 106, 0, 16.9}},
{"dpf.walk_prefixes/u64", {612, 314, 1.98e+03, 102, 0, 16}},
{"dpf.walk_prefixes/u8", {893, 174, 1.75e+03, 104, 0, 11.6}},
{"dpf.walk_prefixes/x32", {621, 245, 1.92e+03, 101, 0, 14.1}},
{"hash.fixed_key", {10.1, 0, 0, 0, 0, 3}},
{"hash.functions", {104, 942, 1.12e+03, 785, 0, 0}},
{"hash.input_length", {0.083, 2.75, 0, 0, 0, 0}},
{"mic.evaluate", {1.08e+03, 22.5, 7.75e+03, 510, 0, 17.9}},
{"mic.generate", {1.1e+03, 76.4, 2.4e+03, 2.02e+03, 0, 4.48}},
{"pair.queries_cuckoo", {156, 106, 468, 71.9, 0.0635, 11.5}},
{"pair.queries_dense", {26.5, 18.1, 85.1, 17.1, 0.0155, 1.92}},
{"pair.queries_simple", {25.5, 18.8, 85.8, 17.3, 0.156, 1.92}},
{"prng.many_reads", {1.18, 4.25, 5, 0.0155, 0, 0.184}},
{"prng.one_read", {0.066, 5, 5.2, 5.2, 0, 0.196}},
{"server.queries_cuckoo", {46.8, 27.5, 122, 32.4, 0.037, 3.07}},
{"server.queries_dense", {8.27, 5.15, 24.3, 8.13, 0.0095, 0.575}},
{"server.queries_simple", {6.95, 4.64, 21.7, 7.22, 0.0835, 0.511}},
{"server.records_cuckoo", {72.9, 51.3, 215, 64.8, 0, 5.76}},
{"server.records_dense", {11.5, 8.11, 34.7, 23.4, 0, 0.911}},
{"server.records_simple", {8.33, 6.21, 26.5, 17.5, 0, 0.695}},
{"table.cuckoo", {143, 915, 299, 209, 0, 0}},
{"table.multiple_choice", {156, 1.51e+03, 725, 426, 0, 0}},
{"table.read", {5.02, 0, 0, 0, 0, 0}},
{"table.simple", {112, 570, 754, 438, 0, 0}},
