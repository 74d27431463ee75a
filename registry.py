CHECKS = {
    "C01": dict(drivers=[dict(src="c01_mediatype.cc", lib="core")], level="model_checking"),
    "C04": dict(drivers=[dict(src="c04_lines.cc", lib="core")], level="model_checking"),
    "C02": dict(drivers=[dict(src="c02_ranges.cc", lib="core")], level="model_checking"),
    "C03": dict(drivers=[dict(src="c03_utf8.cc", lib="none")], level="model_checking"),
    "C05": dict(drivers=[dict(src="c05_nodes.cc", lib="core")], level="model_checking"),
    "C06": dict(drivers=[dict(src="c06_regex.cc", lib="core")], level="model_checking"),
    "C07": dict(drivers=[dict(src="c07_clone.cc", lib="core")], level="model_checking"),
    "C08": dict(drivers=[dict(src="c08_equality.cc", lib="core")], level="model_checking"),
    "C09": dict(drivers=[dict(src="c09_info.cc", lib="core")], level="model_checking"),
    "C10": dict(drivers=[dict(src="c10_containers.cc", lib="core")], level="model_checking"),
    "C11": dict(drivers=[dict(src="c11_registry.cc", lib="core")], level="model_checking"),
    "C12": dict(drivers=[dict(src="c12_expand.cc", lib="core")], level="model_checking"),
    "C13": dict(drivers=[dict(src="c13_merge.cc", lib="core")], level="model_checking"),
    "C14": dict(drivers=[dict(src="c14_visit.cc", lib="core")], level="model_checking"),
    "C15": dict(drivers=[dict(src="c15_values.cc", lib="core")], level="model_checking"),
    "C16": dict(drivers=[dict(src="c16_sizes.cc", lib="so")], level="model_checking"),
    "C17": dict(drivers=[dict(src="c17_statements.cc", lib="so")], level="model_checking"),
    "C18": dict(drivers=[dict(src="c18_text.cc", lib="so")], level="model_checking"),
    "C19": dict(drivers=[dict(src="c19_log.cc", lib="none")], level="model_checking"),
    "C20": dict(drivers=[dict(src="c20_output.cc", lib="so")], level="model_checking"),
    "C21": dict(drivers=[dict(src="c21_render.cc", lib="so")], level="model_checking"),
    "C22": dict(drivers=[dict(src="c22_values.cc", lib="so")], level="model_checking"),
    "C23": dict(drivers=[dict(src="c23_parse.cc", lib="full", flags="'-DFIXTURES=\"@REPO@/packages\"'")], level="model_checking"),
    "C24": dict(drivers=[dict(src="c24_numbers.cc", lib="core"), dict(src="c24_literals.cc", lib="full")], level="model_checking"),
    "C25": dict(drivers=[dict(src="c25_api.cc", lib="full", flavour="plain", flags="'-DFIXTURES=\"@REPO@/packages\"'")], level="model_checking"),
    "C26": dict(drivers=[dict(src="c26_independence.cc", lib="full", flavour="plain", flags="'-DFIXTURES=\"@REPO@/packages\"'")], level="model_checking"),
    "C27": dict(drivers=[dict(src="c27_structure.cc", lib="full", flavour="plain")], level="model_checking"),
    "C28": dict(drivers=[dict(src="c28_payloads.cc", lib="full", flavour="plain")], level="model_checking"),
    "C29": dict(drivers=[dict(src="c29_parameters.cc", lib="full", flavour="plain")], level="model_checking"),
    "C30": dict(drivers=[dict(src="c30_bodies.cc", lib="so", flavour="plain")], level="model_checking"),
    "C31": dict(drivers=[dict(src="c31_types.cc", lib="full", flavour="plain")], level="model_checking"),
    "C32": dict(drivers=[dict(src="c32_messages.cc", lib="full", flavour="plain")], level="model_checking"),
    "C33": dict(drivers=[dict(src="c33_remarks.cc", lib="full", flavour="plain")], level="model_checking"),
    "C34": dict(drivers=[dict(src="c34_tool.cc", lib="full", flavour="plain")], level="model_checking"),
    "C35": dict(drivers=[dict(src="c35_templates.cc", lib="full", flavour="plain")], level="model_checking"),
    "C36": dict(drivers=[dict(src="c36_contenttypes.cc", lib="full", flavour="plain")], level="model_checking"),
    "C37": dict(drivers=[dict(src="c37_signatures.cc", lib="full", flavour="plain")], level="model_checking"),
}
