"""Properties solver-based checking of the real code cannot decide here (listed under not_applicable in MANIFEST.json)."""
NOT_APPLICABLE = [
    {
        "id": "N01",
        "title": "Recorded scenarios load completely and from the place asked for",
        "statement": "Loading a recorded scenario by name finds its file wherever the given folder holds it and yields the lanes, obstacles and planning problem written there.",
        "quantifier": {"over": ["inputs"], "text": "all scenario files"},
        "why_tests_cant": "the tests load a handful of files",
        "anchors": {"files": ["src/dg_commons/sim/scenarios/utils.py"], "mechanism": [{"name": "loading", "where": "src/dg_commons/sim/scenarios/utils.py load_commonroad_scenario"}]},
        "reason": "A thin wrapper: what the file holds is read by the third-party CommonRoad reader (lxml, C code, real file system), whose input cannot be made symbolic; the wrapper itself has no value to quantify over.",
    },
    {
        "id": "N02",
        "title": "Films and reports of a simulation are written readably",
        "statement": "An animation is written to the file and at the frame rate asked for, and collision and log plots show the values they are labelled with.",
        "quantifier": {"over": ["inputs"], "text": "all simulation logs"},
        "why_tests_cant": "the tests only check that files appear",
        "anchors": {"files": ["src/dg_commons/sim/simulator_animation.py", "src/dg_commons/sim/collision_visualisation.py", "src/dg_commons/sim/log_visualisation.py"],
                    "mechanism": [{"name": "writing", "where": "src/dg_commons/sim/simulator_animation.py create_animation"}]},
        "reason": "What reaches the file is decided by matplotlib's rasteriser and an external encoder (ffmpeg or imagemagick); neither can be encoded. What is handed to matplotlib for every frame is covered by C29.",
    },
    {
        "id": "N03",
        "title": "A simulation gives the same result on every machine and in every process",
        "statement": "Two runs of the same simulation in different processes, with the same random seeds, log the same floating-point numbers.",
        "quantifier": {"over": ["inputs", "configurations"], "text": "all simulations, platforms and hash seeds"},
        "why_tests_cant": "each test runs once in one process",
        "anchors": {"files": ["src/dg_commons/sim/simulator.py", "src/dg_commons/sim/agents/lane_follower.py"], "mechanism": [{"name": "simulation", "where": "src/dg_commons/sim/simulator.py Simulator.run"}]},
        "reason": "Bit-for-bit equality depends on the rounding of libm, BLAS and scipy's compiled integrator and on the interpreter's hash seed; the encoding treats floats as reals and executes one interpreter process.",
    },
]
