"""C05: serialization preserves structure and names (contracts shared in serlib.py)."""
from spec import serlib
from spec.serlib import *

ASSUMPTIONS = serlib.ASSUMPTIONS


async def check_list():
    use_aspect("structure")
    await list_case()


async def check_list_mismatch():
    use_aspect("structure")
    await list_mismatch_case()


async def check_dict():
    use_aspect("structure")
    await dict_case()


async def check_input_object():
    use_aspect("structure")
    await input_object_case()


async def check_resource():
    use_aspect("structure")
    await resource_case()


async def check_asset():
    use_aspect("structure")
    await asset_case()


async def check_asset_unknown_kind():
    use_aspect("structure")
    await asset_unknown_kind_case()


async def check_awaitable():
    use_aspect("structure")
    await awaitable_case()


async def check_output():
    use_aspect("structure")
    await output_case()


async def check_prompt():
    use_aspect("structure")
    await prompt_case()


async def check_bag():
    use_aspect("structure")
    await bag_case()


async def check_whole_native():
    use_aspect("structure")
    await whole_native()


async def check_bag_native():
    use_aspect("structure")
    await bag_native()


HARNESSES = [check_list, check_list_mismatch, check_dict, check_input_object, check_resource, check_asset, check_asset_unknown_kind, check_awaitable, check_output, check_prompt, check_bag]
NATIVE = [check_whole_native, check_bag_native]
BOUNDS = {"check_whole_native": "random inputs of depth 5, 7 declared types", "check_bag_native": "random bags of up to 6 properties, depth 5"}
