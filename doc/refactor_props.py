PROPS.update({"cmd/diff":"C02 C03 C07 C08 C09","pkg/diff":"C02 C03 C07 C08 C09"})
PROPS.update({"pkg/txt":"C17"})
PROPS.update({"pkg/flag":"C15"})
PROPS.update({"pkg/ed":"C18 C19 C20","cmd/ed":"C18 C19 C20"})
PROPS.update({"pkg/tsort":"C02 C03 C14","cmd/tsort":"C02 C03 C14"})
for _k in ("pkg/ed","cmd/ed"): PROPS[_k]+=" C21"
for _k in list(PROPS):
    PROPS[_k]+=" C22 C25"
PROPS.update({"pkg/locale":"C16 C24 C22 C25"})
