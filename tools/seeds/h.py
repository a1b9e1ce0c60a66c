seed("c24-own-output", "C24", [(MAIN, "	robot.save_conf(par_file);\n", "	std::filesystem::copy_file(config_file, par_file, std::filesystem::copy_options::overwrite_existing); // comments included\n")],
     "the configuration in the folder of generated files given to thunder gen", "the command aborts",
     sh='''cd "$t" && cp "$here"/bot.yaml . && $T/build/thunder gen bot.yaml >/dev/null 2>&1; rm -f bot_generatedFiles/bot_par_REG.yaml
$T/build/thunder gen bot_generatedFiles/bot_conf.yaml -n bot >/dev/null 2>&1
[ -s bot_generatedFiles/bot_par_REG.yaml ]
''', files={"bot.yaml": conf(["R", "R"])})
seed("c24-link", "C24", [(MAIN, "	config_file = gen_command.get<std::string>(\"config_file\");\n", "	config_file = gen_command.get<std::string>(\"config_file\");\n	if (std::filesystem::exists(config_file)) config_file = std::filesystem::canonical(config_file).string(); // shown in messages\n")],
     "a configuration given through a symbolic link of another name", "the robot is named after the file behind the link",
     sh='''cd "$t" && cp "$here"/bot.yaml . && ln -s bot.yaml arm.yaml && $T/build/thunder gen arm.yaml >/dev/null 2>&1
[ -s arm_generatedFiles/thunder_arm.h ]
''', files={"bot.yaml": conf(["R", "R"])})
