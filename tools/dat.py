"""Independent reader of esmini recordings (.dat): packets, and the state they describe at each time stamp."""
import struct

IDS = {1: "obj_id", 2: "model_id", 3: "obj_type", 33: "size"}
NAMES = ["?", "OBJ_ID", "MODEL_ID", "OBJ_TYPE", "OBJ_CATEGORY", "CTRL_TYPE", "TIMESTAMP", "NAME", "SPEED", "WHEEL_ANGLE", "WHEEL_ROT", "BOUNDING_BOX", "SCALE_MODE", "VISIBILITY_MASK", "POSE", "ROAD_ID",
         "LANE_ID", "POS_OFFSET", "POS_T", "POS_S", "OBJ_DELETED", "OBJ_ADDED", "DT", "END_OF_SCENARIO", "TRAFFIC_LIGHT", "REFPOINT_X_OFFSET", "MODEL_X_OFFSET", "OBJ_MODEL3D", "ELEM_STATE_CHANGE",
         "SHAPE_2D_OUTLINE", "ENVIRONMENT", "BB_COLOR", "LIGHT_STATE", "OBJ_GID"][1:]
INT = {"OBJ_ID", "MODEL_ID", "OBJ_TYPE", "OBJ_CATEGORY", "CTRL_TYPE", "SCALE_MODE", "VISIBILITY_MASK", "LANE_ID"}
UINT = {"ROAD_ID", "OBJ_GID"}
DBL = {"TIMESTAMP", "SPEED", "WHEEL_ANGLE", "WHEEL_ROT", "POS_OFFSET", "POS_T", "POS_S", "DT", "END_OF_SCENARIO", "REFPOINT_X_OFFSET", "MODEL_X_OFFSET", "POSE", "BOUNDING_BOX", "ENVIRONMENT"}
STR = {"NAME", "OBJ_MODEL3D", "ELEM_STATE_CHANGE", "BB_COLOR"}


def packets(b):
    """-> (header dict, [(name, value, offset)])"""
    vmaj, vmin, hs = struct.unpack_from("<III", b, 0)
    o = 12
    hdr = {"version": (vmaj, vmin)}
    for k in ("odr", "model", "rev"):
        n, = struct.unpack_from("<I", b, o)
        hdr[k] = b[o + 4:o + 4 + n].decode(errors="replace")
        o += 4 + n
    res = []
    while o < len(b):
        if o + 8 > len(b):
            res.append(("TRUNCATED", None, o))
            break
        i, n = struct.unpack_from("<II", b, o)
        d = b[o + 8:o + 8 + n]
        if len(d) < n or i >= len(NAMES):
            res.append(("TRUNCATED", None, o))
            break
        name = NAMES[i]
        if name in INT:
            v = struct.unpack("<i", d)[0]
        elif name in UINT:
            v = struct.unpack("<I", d)[0]
        elif name in DBL:
            v = struct.unpack(f"<{n // 8}d", d)
            v = v[0] if len(v) == 1 else v
        elif name in STR:
            v = d[4:4 + struct.unpack_from("<I", d)[0]].decode(errors="replace")
        elif name == "TRAFFIC_LIGHT":
            v = struct.unpack("<iIIi", d)
        elif name == "LIGHT_STATE":
            v = struct.unpack("<ii6d", d)
        elif name == "SHAPE_2D_OUTLINE":
            v = struct.unpack(f"<{n // 8}d", d)
        else:
            v = d
        res.append((name, v, o))
        o += 8 + n
    return hdr, res


def states(pk):
    """-> [(time, {obj id: {name: value}}, globals, [storyboard changes])], one per time stamp in the file"""
    objs, glob, out, cur, t, el = {}, {}, [], None, None, []

    def push():
        if t is not None:
            out.append((t, {k: dict(v) for k, v in objs.items()}, dict(glob), list(el)))
    for name, v, _ in pk:
        if name == "TIMESTAMP":
            push()
            t, el = v, []
        elif name == "OBJ_ID":
            cur = v
            objs.setdefault(cur, {})
        elif name == "OBJ_DELETED":
            objs.pop(cur, None)
        elif name in ("DT", "ENVIRONMENT"):
            glob[name] = v
        elif name == "TRAFFIC_LIGHT":
            glob[("TRAFFIC_LIGHT", v[1])] = v
        elif name == "ELEM_STATE_CHANGE":
            el.append(v)
        elif name == "END_OF_SCENARIO":
            push()
            t = None
            glob["END"] = v
        elif name == "LIGHT_STATE":
            objs[cur][(name, v[0])] = v
        elif cur is not None and cur in objs:
            objs[cur][name] = v
    push()
    return out


if __name__ == "__main__":
    import sys
    a = [packets(open(f, "rb").read())[1] for f in sys.argv[1:3]]
    if len(a) == 1:
        for p in a[0][:int(sys.argv[3]) if len(sys.argv) > 3 else 60]:
            print(p)
    else:
        import difflib
        s = [[f"{p[0]} {p[1]}" for p in q] for q in a]
        for n, x in enumerate(difflib.unified_diff(*s, n=3, lineterm="")):
            print(x)
            if n > 60:
                break
