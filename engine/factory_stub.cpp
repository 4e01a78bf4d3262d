// The application has to say which classes its factory knows; harnesses which need some define it themselves.
#include <stingraykit/factory/Factory.h>
#include <stingraykit/any.h>
namespace stingray
{
	__attribute__((weak)) void Factory::RegisterTypes(const FactoryContextPtr& context)
	{ STINGRAYKIT_REGISTER_CLASS_EXPLICIT(Detail::any::ObjectHolder<ISerializablePtr>); }
}
