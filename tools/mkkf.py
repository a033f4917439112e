import json,subprocess
rows=[("C02","18d4980","letter case of pylint arguments was lost when everything was enabled or disabled"),
("C01","d34f1a3","the implicit configuration file was looked for in the folder of the file only, not in its parents"),
("E01","7a4cb54","downloaded explanations were never loaded"),
("C03","b9eaba0","translations of the language file of one group leaked into the others"),
("C03","c59f368","files with different configurations were grouped together"),
("C07","f877db4","a list with values other than strings crashed the processing of the configuration file"),
("C07","1e291df","translations of an invalid type crashed"),
("C07","4b01dd9","the key edulint with a value other than a table crashed"),
("C07","e4be745","language file option of an invalid type crashed"),
("C07","6fcf44f","default enabler of an invalid type crashed"),
("C07","b623ae2","invalid translated extracts crashed"),
("C07","ad98691","configuration files naming each other in a cycle never finished"),
("L04","31457e7","main exited with a status other than 2 on a crash"),
("L04","5d7fc9c","standard streams were not restored after a linter crashed"),
("A01","a6b2ae6","overflow and division by zero crashed the constant folding"),
("A02","0569638","chained comparisons and differing values were taken for negations"),
("A02","c0ea70a","x % 2 == 0 and x % 2 == k were taken for negations for other k"),
("A03","908fe5c","division and remainder of negative numbers were encoded with the solver's semantics"),
("A03","4db680f","abs was encoded wrongly"),
("V01","48aed81","an unknown latest version was announced as an update"),
("T01","e755460","a template naming missing parts crashed"),
("L03","1dd4e28","paths through symlinks or parent folders were not found among the arguments"),
("V01","fcb5233","line endings of version_checker.py restored after 48aed81 (no behaviour)"),
("A04","0dc311f","exception handlers and else branches starting with a loop were not connected"),
("E01","54767bc","explanations were downloaded although updates were disabled"),
("T01","2306e87","a template indexing a part by a name crashed"),
("C05","cb708e0","a write to the cache that failed half way left a truncated configuration, later used as the offline copy")]
full=lambda h: subprocess.check_output(["git","-C","/repo","rev-parse",h],text=True).strip()
json.dump({"findings":[{"property":p,"kind":"fixed","commit":full(h),"what":w,"line":f"fixed: property={p} {full(h)} {w}"} for p,h,w in rows]},open("/verif/known_findings.json","w"),indent=1)
