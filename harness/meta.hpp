// document metadata from an XML text, directly or through a file
#pragma once
#include "czi.hpp"
namespace czi
{
    class XmlSegment : public IMetadataSegment
    {
        std::shared_ptr<std::string> s_;
    public:
        explicit XmlSegment(const std::string& s) : s_(std::make_shared<std::string>(s)) {}
        std::shared_ptr<const void> GetRawData(MemBlkType type, size_t* ptrSize) override { if (type != XmlMetadata) { if (ptrSize) *ptrSize = 0; return {}; } if (ptrSize) *ptrSize = s_->size(); return std::shared_ptr<const void>(s_, s_->data()); }
        void DangerousGetRawData(MemBlkType type, const void*& ptr, size_t& size) const override { if (type != XmlMetadata) { ptr = nullptr; size = 0; return; } ptr = s_->data(); size = s_->size(); }
    };
    inline std::shared_ptr<ICziMetadata> metaOf(const std::string& xml, bool throughFile)
    {
        if (!throughFile) { XmlSegment s(xml); return s.CreateMetaFromMetadataSegment(); }
        Doc d; d.guid = GUID{ 1,2,3,{4,5,6,7,8,9,10,11} }; d.hasMeta = true; d.xml = xml;
        Sb t; t.w = t.h = t.pw = t.ph = 1; t.data = Bytes(1); t.dims[DimensionIndex::C] = 0; t.mValid = true; d.sbs.push_back(t);
        return openReader(writeDoc(d))->ReadMetadataSegment()->CreateMetaFromMetadataSegment();
    }
}
