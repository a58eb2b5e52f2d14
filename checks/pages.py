"""W01: the talp command (talp-pages) over random folders of TALP records."""
import os
import vp

PY = "/opt/vp/talp-venv/bin/python"      # where its dependencies (pandas, plotly, jinja2) are


def W01(c):
    if not os.path.exists(PY):
        raise vp.HarnessError("no Python with the dependencies of talp-pages")
    h = os.path.join(vp.VERIF, "harness", "pages.py")
    per = 50

    def one(i):
        c.run_case([PY, "-B", h, vp.REPO, c.seed * 10000 + i + 1, per], 600, what="pages", env={"TMPDIR": c.work, "HOME": c.work, "LC_ALL": "C.UTF-8"})
    c.pmap(one, range(c.scale(16, 400)), 8)
    c.sample("a tree of 1-4 folders, 1-20 records each, MPI/OpenMP/hybrid/serial, with or without counters and git metadata -> ci-report -> every point, cell, link, badge compared with the records")
    c.evaluations = sum(c.stats.get(k, 0) for k in ("points", "cells", "badges", "folders", "enriched"))
    c.finish("distinct (runs per folder, resource configurations) of the trees; an evaluation is a point of a plot, a cell of a table, a badge, a folder of the index or an enriched record compared",
             20000, ("reports", "refused_overwrite", "invalid_broken", "invalid_version", "tables_strong", "tables_weak", "badges", "selected_not_everywhere",
                     "metadata_added", "metadata_conflict", "metadata_cli", "metadata_github", "metadata_gitlab", "metadata_gitlab-mr", "metadata_github-pr", "reports_enriched"))
