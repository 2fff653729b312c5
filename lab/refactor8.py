M='t86-cli/main.cpp'
ALL=[M]
E=[('m1',M,'''        .help("number of float registers")
        .default_value((size_t)4)
''','''        .default_value((size_t)4)
        .help("number of float registers")
'''),
('m2',M,'''    args.add_argument("--debug")
        .help("open debugging port at 9110")
        .default_value(false)
        .implicit_value(true);

    args.add_argument("--register-cnt")
        .help("number of general purpose registers")
        .default_value((size_t)8)
        .scan<'u', size_t>();
''','''    auto& rc = args.add_argument("--register-cnt");
    rc.help("number of general purpose registers");
    rc.default_value((size_t)8)
        .scan<'u', size_t>();

    args.add_argument("--debug")
        .help("open debugging port at 9110")
        .default_value(false)
        .implicit_value(true);
''')]
