import checks_x, checks_comb, checks_ui, checks_exec, checks_event, checks_dropdown, checks_virt, checks_css, checks_html
CHECKS = {}
for m in (checks_x, checks_comb, checks_ui, checks_exec, checks_event, checks_dropdown, checks_virt, checks_css, checks_html):
    CHECKS.update(m.CHECKS)
