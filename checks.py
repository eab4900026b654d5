"""What each check builds and how much it generates (cases: quick tier; thorough multiplies by factor)."""
CHECKS = {
    "T01": {"harness": ["T01.cc"], "cases": 9000000},
    "T02": {"harness": ["T02.cc"], "cases": 9000000},
    "G01": {"harness": ["G01.cc"], "sources": ["ink/geometry/internal/jni/angle_jni.cc"], "cases": 9000000},
    "T03": {"harness": ["T03.cc"], "cases": 2500000},
    "T04": {"harness": ["T04.cc"], "cases": 4000000},
    "J01": {"harness": ["J01.cc"], "cases": 1200000},
    "C01": {"harness": ["C01.cc"], "cases": 6000000},
    "R01": {"harness": ["R01.cc"], "cases": 60000},
    "R02": {"harness": ["R02.cc"], "cases": 60000},
    "M01": {"harness": ["M01.cc"], "cases": 2000000},
    "M02": {"harness": ["M02.cc"], "cases": 1400000},
    "G02": {"harness": ["G02.cc"], "cases": 4500000},
    "G03": {"harness": ["G03.cc"], "cases": 4000000},
    "G06": {"harness": ["G06.cc"], "cases": 1500000},
    "G04": {"harness": ["G04.cc"], "cases": 2500000},
    "G05": {"harness": ["G05.cc"], "cases": 4000000},
    "G07": {"harness": ["G07.cc"], "cases": 4000000},
    "G08": {"harness": ["G08.cc"], "cases": 4000000},
    "M03": {"harness": ["M03.cc"], "cases": 200000},
    "M04": {"harness": ["M04.cc"], "cases": 300000},
    "B01": {"harness": ["B01.cc"], "cases": 4000000},
    "B02": {"harness": ["B02.cc"], "cases": 400000},
    "B03": {"harness": ["B03.cc"], "cases": 400000},
    "S01": {"harness": ["S01.cc"], "cases": 1200000},
    "S05": {"harness": ["S05.cc"], "cases": 1500000},
    "S06": {"harness": ["S06.cc"], "cases": 600000},
    "S02": {"harness": ["S02.cc"], "cases": 260000},
    "S03": {"harness": ["S03.cc"], "cases": 60000},
    "S04": {"harness": ["S04.cc"], "cases": 30000},
    "S08": {"harness": ["S08.cc"], "cases": 500000},
    "S07": {"harness": ["S07.cc"], "cases": 800000},
    "S09": {"harness": ["S09.cc"], "cases": 30000},
    "M05": {"harness": ["M05.cc"], "cases": 200000},
    "M06": {"harness": ["M06.cc"], "cases": 200000},
    "J02": {"harness": ["J02.cc"], "cases": 400000, "flags": ["-fno-sanitize=function"],
            "sources": ["ink/geometry/internal/jni/affine_transform_jni.cc", "ink/geometry/internal/jni/angle_jni.cc", "ink/geometry/internal/jni/intersects_jni.cc", "ink/geometry/internal/jni/mesh_format_jni.cc", "ink/geometry/internal/jni/mesh_jni.cc", "ink/geometry/internal/jni/mutable_envelope_jni.cc", "ink/geometry/internal/jni/parallelogram_jni.cc", "ink/geometry/internal/jni/partitioned_mesh_jni.cc", "ink/geometry/internal/jni/rect_jni.cc", "ink/geometry/internal/jni/triangle_jni.cc", "ink/geometry/internal/jni/vec_jni.cc"]},
    "J03": {"harness": ["J03.cc"], "cases": 60000, "flags": ["-fno-sanitize=function"],
            "sources": ["ink/brush/internal/jni/brush_behavior_jni.cc", "ink/brush/internal/jni/brush_coat_jni.cc", "ink/brush/internal/jni/brush_family_jni.cc", "ink/brush/internal/jni/brush_jni.cc", "ink/brush/internal/jni/brush_paint_jni.cc", "ink/brush/internal/jni/brush_tip_jni.cc", "ink/strokes/internal/jni/in_progress_stroke_jni.cc", "ink/strokes/internal/jni/stroke_input_batch_jni.cc", "ink/strokes/internal/jni/stroke_jni.cc", "ink/rendering/skia/common_internal/jni/canvas_mesh_renderer_jni.cc"]},
    "S10": {"harness": ["S10.cc"], "cases": 400000},
    "S11": {"harness": ["S11.cc"], "cases": 60000},
    "R03": {"harness": ["R03.cc"], "cases": 150000},
}
